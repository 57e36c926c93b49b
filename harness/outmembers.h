// Members of the output structures, X(member).
#pragma once
#define M_VmecInternalResults(X) \
  X(sign_of_jacobian) X(num_full) X(num_half) X(nZnT_reduced) X(sqrtSH) X(sqrtSF) X(sm) X(sp) X(phipF) X(chipF) X(phipH) X(chipH) X(currH) X(phiF) \
  X(iotaF) X(spectral_width) X(bvcoH) X(dVdsH) X(massH) X(presH) X(iotaH) X(rmncc) X(rmnss) X(rmnsc) X(rmncs) X(zmnsc) X(zmncs) X(zmncc) X(zmnss) \
  X(lmnsc) X(lmncs) X(lmncc) X(lmnss) X(r_e) X(r_o) X(z_e) X(z_o) X(ru_e) X(ru_o) X(zu_e) X(zu_o) X(rv_e) X(rv_o) X(zv_e) X(zv_o) X(ruFull) X(zuFull) \
  X(r12) X(ru12) X(zu12) X(rs) X(zs) X(gsqrt) X(guu) X(guv) X(gvv) X(bsupu) X(bsupv) X(bsubu) X(bsubv) X(bsubvF) X(total_pressure) X(currv)
#define M_RemainingMetric(X) \
  X(rv12) X(zv12) X(rs12) X(zs12) X(gsu) X(gsv)
#define M_CylindricalComponentsOfB(X) \
  X(b_r) X(b_phi) X(b_z)
#define M_BSubSHalf(X) \
  X(bsubs_half)
#define M_BSubSFull(X) \
  X(bsubs_full)
#define M_CovariantBDerivatives(X) \
  X(bsubsu) X(bsubsv) X(bsubuv) X(bsubvu)
#define M_JxBOutFileContents(X) \
  X(itheta) X(izeta) X(bdotk) X(amaxfor) X(aminfor) X(avforce) X(pprim) X(jdotb) X(bdotb) X(bdotgradv) X(jpar2) X(jperp2) X(phin) X(jsupu3) X(jsupv3) \
  X(jsups3) X(bsupu3) X(bsupv3) X(jcrossb) X(jxb_gradp) X(jdotb_sqrtg) X(sqrtg3) X(bsubu3) X(bsubv3) X(bsubs3)
#define M_MercierStabilityIntermediateQuantities(X) \
  X(s) X(shear) X(vpp) X(d_pressure_d_s) X(d_toroidal_current_d_s) X(phip_realH) X(phip_realF) X(vp_real) X(torcur) X(gsqrt_full) X(bdotj) X(gpp) \
  X(b2) X(tpp) X(tbb) X(tjb) X(tjj)
#define M_MercierFileContents(X) \
  X(s) X(toroidal_flux) X(iota) X(shear) X(d_volume_d_s) X(well) X(toroidal_current) X(d_toroidal_current_d_s) X(pressure) X(d_pressure_d_s) \
  X(DMerc) X(Dshear) X(Dwell) X(Dcurr) X(Dgeod)
#define M_Threed1FirstTableIntermediate(X) \
  X(tau) X(beta_vol) X(overr) X(beta_axis) X(presf) X(phipf_loc) X(phi1) X(chi1) X(chi) X(bvcoH) X(bucoH) X(jcurv) X(jcuru) X(presgrad) X(vpphi) \
  X(equif) X(bucof) X(bvcof)
#define M_Threed1FirstTable(X) \
  X(s) X(radial_force) X(toroidal_flux) X(iota) X(avg_jsupu) X(avg_jsupv) X(d_volume_d_phi) X(d_pressure_d_phi) X(spectral_width) X(pressure) \
  X(buco_full) X(bvco_full) X(j_dot_b) X(b_dot_b)
#define M_Threed1GeometricAndMagneticQuantitiesIntermediate(X) \
  X(anorm) X(vnorm) X(surf_area) X(circumference_sum) X(rcenin) X(aminr2in) X(bminz2in) X(bminz2) X(sump) X(btor_vac) X(btor1) X(dbtor) X(phat) \
  X(redge) X(delphid_exact) X(musubi) X(rshaf1) X(rshaf2) X(rshaf) X(fpsi0) X(sumbtot) X(sumbtor) X(sumbpol) X(sump20) X(sump2) X(jPS2) X(jpar_perp_sum) \
  X(jparPS_perp_sum) X(s2) X(fac) X(r3v)
#define M_Threed1GeometricAndMagneticQuantities(X) \
  X(toroidal_flux) X(circum_p) X(surf_area_p) X(cross_area_p) X(volume_p) X(Rmajor_p) X(Aminor_p) X(aspect) X(kappa_p) X(rcen) X(aminr1) X(pavg) \
  X(factor) X(b0) X(rmax_surf) X(rmin_surf) X(zmax_surf) X(bmin) X(bmax) X(waist) X(height) X(betapol) X(betatot) X(betator) X(VolAvgB) X(IonLarmor) \
  X(jpar_perp) X(jparPS_perp) X(toroidal_current) X(rbtor) X(rbtor0) X(psi) X(ygeo) X(yinden) X(yellip) X(ytrian) X(yshift) X(loc_jpar_perp) X(loc_jparPS_perp)
#define M_Threed1Volumetrics(X) \
  X(int_p) X(avg_p) X(int_bpol) X(avg_bpol) X(int_btor) X(avg_btor) X(int_modb) X(avg_modb) X(int_ekin) X(avg_ekin)
#define M_Threed1AxisGeometry(X) \
  X(raxis_symm) X(zaxis_symm) X(raxis_asym) X(zaxis_asym)
#define M_Threed1Betas(X) \
  X(betatot) X(betapol) X(betator) X(rbtor) X(betaxis) X(betstr)
#define M_Threed1ShafranovIntegrals(X) \
  X(scaling_ratio) X(r_lao) X(f_lao) X(f_geo) X(smaleli) X(betai) X(musubi) X(lambda) X(s11) X(s12) X(s13) X(s2) X(s3) X(delta1) X(delta2) X(delta3)
#define M_WOutFileContents(X) \
  X(version_) X(signgs) X(gamma) X(pcurr_type) X(pmass_type) X(piota_type) X(am) X(ac) X(ai) X(am_aux_s) X(am_aux_f) X(ac_aux_s) X(ac_aux_f) \
  X(ai_aux_s) X(ai_aux_f) X(nfp) X(mpol) X(ntor) X(lasym) X(ns) X(ftolv) X(niter) X(lfreeb) X(mgrid_file) X(nextcur) X(extcur) X(mgrid_mode) X(wb) \
  X(wp) X(rmax_surf) X(rmin_surf) X(zmax_surf) X(mnmax) X(mnmax_nyq) X(ier_flag) X(aspect) X(betatotal) X(betapol) X(betator) X(betaxis) X(b0) \
  X(rbtor0) X(rbtor) X(IonLarmor) X(volavgB) X(ctor) X(Aminor_p) X(Rmajor_p) X(volume) X(fsqr) X(fsqz) X(fsql) X(iotaf) X(q_factor) X(presf) X(phi) \
  X(phipf) X(chi) X(chipf) X(jcuru) X(jcurv) X(iotas) X(mass) X(pres) X(beta_vol) X(buco) X(bvco) X(vp) X(specw) X(phips) X(over_r) X(jdotb) X(bdotgradv) \
  X(DMerc) X(DShear) X(DWell) X(DCurr) X(DGeod) X(equif) X(curlabel) X(potvac) X(xm) X(xn) X(xm_nyq) X(xn_nyq) X(raxis_cc) X(zaxis_cs) X(rmnc) \
  X(zmns) X(lmns_full) X(lmns) X(gmnc) X(bmnc) X(bsubumnc) X(bsubvmnc) X(bsubsmns) X(bsubsmns_full) X(bsupumnc) X(bsupvmnc) X(currumnc) X(currvmnc) \
  X(raxis_cs) X(zaxis_cc) X(rmns) X(zmnc) X(lmnc_full) X(lmnc) X(gmns) X(bmns) X(bsubumns) X(bsubvmns) X(bsubsmnc) X(bsubsmnc_full) X(bsupumns) \
  X(bsupvmns) X(currumns) X(currvmns)
