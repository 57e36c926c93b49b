// Solver core: transforms between Fourier and real space, as the core uses them.
// TUS: vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/thread_local_storage/thread_local_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_inverse |props=P10 |bounds=mpol 4 and ntor 0..1 (mpol 3 with two threads in 3D), mpol 3 and ntor 2, 3 surfaces (5 with two threads), whole radius or either half of a two-thread split, symmetric and asymmetric, arbitrary coefficients |reach=done
// ENTRY: h_forward |props=P11 |bounds=mpol 5 with ntor 0, 4 with ntor 1, 3 with ntor 2, 3 surfaces (4 with two threads), whole radius or either half of a two-thread split, symmetric and asymmetric, fixed boundary or free boundary before and after the vacuum field is on, arbitrary forces |reach=done
#include "transforms.h"

extern "C" void h_inverse() {
  Cfg c;
  c.mpol = 4; c.ns = 3;
  c.ntor = sym_choice("ntor", 3);
  c.lasym = sym_choice("lasym", 2);
  int pc = sym_choice("partition", 3);
  if (pc) c.ns = 5, c.mpol = c.ntor ? 3 : 4;
  if (c.ntor == 2) c.mpol = 3;
  inverse(c, pc);
}

extern "C" void h_forward() {
  Cfg c;
  c.ns = 3;
  c.ntor = sym_choice("ntor", 3);
  c.lasym = sym_choice("lasym", 2);
  c.mpol = c.ntor == 0 ? 5 : c.ntor == 1 ? 4 : 3;
  int pc = sym_choice("partition", 3), fbs = c.ntor && !TH ? 2 * sym_choice("freeb", 2) : sym_choice("freeb", 3);
  if (pc) c.ns = 4;
  forward(c, pc, fbs, (!c.ntor || TH) && sym_choice("alt", 2));
}
