// Interface between the harnesses and the two ways of running them:
// symbolic (VF_SYM: the functions are intrinsics of the engine) and native
// replay (values read from a file).
#ifndef VF_H
#define VF_H
extern "C"{
  double vf_double(const char*name,double lo,double hi);
  int vf_int(const char*name,int lo,int hi);
  void vf_assume(bool c);
  void vf_assert(bool c,const char*msg);
  void vf_close(double a,double b,double tol,const char*msg); // |a-b|<=tol
  void vf_obs(const char*name,double v);
  int vf_param(const char*name);        // concrete, from the job
  double vf_dparam(const char*name);
  void vf_reach(const char*name);       // vacuity witness
  void vf_hint_gehrd(double v);
  bool vf_decide(bool c);                // fork explicitly
  bool vf_symbolic();
  void vf_note(const char*name,double v);
  void vf_stop();
  void vf_threads(int n);               // number of OpenMP threads from here on
}
#ifdef VF_SYM
#define HARNESS(name) extern "C" void h_##name()
#else
#include <cstdio>
namespace vfn{ void reg(const char*,void(*)()); struct Reg{Reg(const char*n,void(*f)()){reg(n,f);}}; }
#define HARNESS(name) extern "C" void h_##name(); static vfn::Reg vf_reg_##name(#name,h_##name); extern "C" void h_##name()
#endif
#endif
