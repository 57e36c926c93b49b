// Solver core with the FFT kernels: the same transforms, by the fast path.
// TUS: vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc vmecpp/vmec/ideal_mhd_model/fft_toroidal.cc vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/thread_local_storage/thread_local_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs/*.cpp third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs/*.cpp
// DEFS: -DVMECPP_USE_FFTX
// INCS: shim/h5 repo:third_party/fftx_codelets repo:third_party/fftx_codelets/include repo:third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs repo:third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs
// ENTRY: h_fft_inverse |props=P10,P12 |bounds=the smallest kernel shape (nzeta 16, mpol 6) and one without a kernel, ntor 2, 2 surfaces away from the axis or 3 with it, one thread or half of a two-thread split, symmetric and asymmetric, arbitrary coefficients |reach=done
// ENTRY: h_fft_forward |props=P11,P12 |bounds=as h_fft_inverse, fixed boundary and free boundary before and after the vacuum field is on, arbitrary forces |reach=done
#include "transforms.h"

static Cfg shape() {
  Cfg c;
  c.ns = 3;
  bool kernel = sym_choice("kernel", 2);
  c.mpol = kernel ? 6 : 2; c.ntor = kernel ? 2 : 1; c.nzeta = kernel ? 16 : 4; c.nfp = 2;
  c.lasym = sym_choice("lasym", 2);
  return c;
}
extern "C" void h_fft_inverse() {
  Cfg c = shape();
  inverse(c, 0);
}
extern "C" void h_fft_forward() {
  Cfg c = shape();
  forward(c, 0, c.lasym && c.mpol > 2 ? 2 : sym_choice("freeb", 3), false);
}
