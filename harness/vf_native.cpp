// Native side: replays a harness with concrete values against the real code.
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <exception>
namespace vfn{
  std::map<std::string,void(*)()>& tab(){static std::map<std::string,void(*)()> t;return t;}
  void reg(const char*n,void(*f)()){tab()[n]=f;}
}
static std::map<std::string,double> vals,params;
static std::map<std::string,int> cnt;
static int failed=0;
static std::string key(const char*n){int k=cnt[n]++;char b[32];snprintf(b,32,"#%d",k);return std::string(n)+b;}
extern "C"{
  double vf_double(const char*n,double lo,double hi){auto k=key(n);auto i=vals.find(k);double d=i!=vals.end()?i->second:(lo+hi)/2;
    if(d<lo)d=lo; if(d>hi)d=hi; return d;}
  int vf_int(const char*n,int lo,int hi){auto k=key(n);auto i=vals.find(k);int d=i!=vals.end()?(int)i->second:lo;if(d<lo)d=lo;if(d>hi)d=hi;return d;}
  void vf_assume(bool c){if(!c){fprintf(stderr,"VF_ASSUME\n");fflush(0);_exit(failed?1:77);}}
  void vf_assert(bool c,const char*m){if(!c){fprintf(stderr,"VF_FAIL %s\n",m);failed=1;}}
  void vf_close(double a,double b,double t,const char*m){if(!(fabs(a-b)<=t)){fprintf(stderr,"VF_FAIL %s: %.17g vs %.17g tol %g\n",m,a,b,t);failed=1;}}
  void vf_obs(const char*n,double v){fprintf(stderr,"VF_OBS %s %.17g\n",n,v);}
  void vf_note(const char*n,double v){fprintf(stderr,"VF_NOTE %s %.17g\n",n,v);}
  int vf_param(const char*n){auto i=params.find(n);if(i==params.end()){fprintf(stderr,"no param %s\n",n);_exit(76);}return (int)i->second;}
  double vf_dparam(const char*n){auto i=params.find(n);if(i==params.end()){fprintf(stderr,"no param %s\n",n);_exit(76);}return i->second;}
  void vf_reach(const char*){}
  void vf_hint_gehrd(double){}
  bool vf_decide(bool c){return c;}
  bool vf_symbolic(){return false;}
  void omp_set_num_threads(int) __attribute__((weak));
  void vf_threads(int n){ if(omp_set_num_threads) omp_set_num_threads(n); }
  void vf_stop(){fflush(0);_exit(failed?1:0);}
}
#include <unistd.h>
int main(int argc,char**argv){
  // usage: prog entry file ; file lines: "v name value" / "p name value"
  auto it=vfn::tab().find(argv[1]); if(it==vfn::tab().end()){fprintf(stderr,"no entry\n");return 75;}
  if(argc>2){FILE*f=fopen(argv[2],"r");char t[8],n[256];char s[256];
    while(f&&fscanf(f,"%7s %255s %255s",t,n,s)==3){double v=strtod(s,0);if(t[0]=='v')vals[n]=v;else params[n]=v;}
    if(f)fclose(f);}
  try{it->second();}
  catch(...){fprintf(stderr,"VF_FAIL uncaught exception\n");failed=1;}
  fprintf(stderr,"VF_END\n");
  return failed?1:0;
}
