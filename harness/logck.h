// C29: reading the event log through its public text. Included before the solver's header. logger.hpp converts numbers with
// an unqualified to_string inside namespace odes; the overload below returns a token that stands for the (possibly symbolic) value.
#ifndef LOGCK_H
#define LOGCK_H
#ifdef VF_SYM
// the string and list code is encoded, not left out
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
extern "C" int vf_real_strings; int vf_real_strings=1;
#endif
#include "vf.h"
#include <list>
#include <string>
#include <iostream>
#include <iomanip>
#include <cstring>
static double lk_tok[4096]; static int lk_ntok;
namespace odes{ template<class T> std::string to_string(T v){ if(lk_ntok>=4096) vf_stop(); char b[8]; int k=lk_ntok++; lk_tok[k]=(double)v; b[0]='#'; for(int i=4;i>=1;i--){ b[i]='0'+k%10; k/=10; } b[5]=0; return std::string(b,5); } }
#ifdef VF_SYM
// the three libstdc++ list primitives
void std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base*const p) noexcept{ _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void std::__detail::_List_node_base::_M_unhook() noexcept{ _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void std::__detail::_List_node_base::_M_transfer(std::__detail::_List_node_base*const f,std::__detail::_List_node_base*const l) noexcept{
  if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; _List_node_base*const t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
#endif
#include "logger.hpp"
enum { LK_SUC=0,LK_REJ,LK_NF,LK_NW,LK_CH,LK_BAD };
struct LkEv{ double cnt,t,step,val; int kind; };
struct LkLog{ LkEv e[256]; int n;
  static int kindOf(const char*p,const char*q){ static const char*nm[5]={"success","rejectedStep","NewtonFailed","NewtonWillNotConverge","changedH"}; int best=LK_BAD,len=0;
    for(;p<q;++p) for(int k=0;k<5;k++){ int l=0; while(nm[k][l]&&p+l<q&&p[l]==nm[k][l]) ++l; if(!nm[k][l]&&l>len){ best=k; len=l; } } return best; }
  void read(const odes::logger&L,odes::eventType E=odes::all){ lk_ntok=0; n=0; std::string s=L.tostring(E); const char*p=s.c_str(),*end=p+s.size();
    while(p<end){ const char*q=p; while(q<end&&*q!='\n') ++q; if(n>=256) vf_stop(); LkEv&v=e[n++]; double*f[4]={&v.cnt,&v.t,&v.step,&v.val}; v.val=0.; int k=0; 
      for(const char*r=p;r<q;++r) if(*r=='#'){ int id=0; for(int i=1;i<=4&&r+i<q;i++) id=id*10+(r[i]-'0'); if(k<4) *f[k]=lk_tok[id]; ++k; }
      vf_assert(k==3||k==4,"a logged event shows its number, time and step"); if(k<3||k>4) vf_stop();
      v.kind=kindOf(p,q); vf_assert(v.kind!=LK_BAD,"a logged event shows its type"); if(v.kind==LK_CH) vf_assert(k==4,"a logged change of the step size shows the new one"); p=q+1; } }
  int count(int k){ int c=0; for(int i=0;i<n;i++) c+=e[i].kind==k; return c; }
  int last(int k){ for(int i=n-1;i>=0;i--) if(e[i].kind==k) return i; return -1; }
  // numbering and order
  void order(double dir){ for(int i=0;i<n;i++){ vf_assert(e[i].cnt==i+1,"events are numbered in order"); if(i){ vf_assert(e[i].step>=e[i-1].step,"events are in the order of the steps"); vf_assert((e[i].t-e[i-1].t)*dir>=-1e-9,"events are in the order of time"); } } }
  // the text restricted to one type of event holds exactly the events of that type
  void filters(const odes::logger&L,int cnt){ static LkLog o; odes::eventType T[5]={odes::success,odes::rejectedStep,odes::NewtonFailed,odes::NewtonWillNotConverge,odes::changedH};
    for(int k=0;k<5;k++){ o.read(L,T[k]); int j=0; for(int i=0;i<n;i++) if(e[i].kind==k){ if(j<o.n){ vf_assert(o.e[j].kind==k&&o.e[j].cnt==j+1&&o.e[j].step==e[i].step,"the log restricted to one type lists the events of that type"); vf_close(o.e[j].t,e[i].t,0.,"the log restricted to one type lists the events of that type"); } ++j; }
      vf_assert(j==o.n,"the log restricted to one type lists the events of that type"); } }
};
static LkLog lk;
// what happened, as seen from the callbacks
struct LkGhost{ int n,kind[64]; double t[64],step[64],hold; bool first; double x0;
  void start(double x){ n=0; first=true; x0=x; }
  void ev(int k,double tt,double st){ if(n>=64) vf_stop(); kind[n]=k; t[n]=tt; step[n]=st; ++n; }
  // the failures and rejections so far
  void failures(double dir){ lk.order(dir); int j=0; 
    for(int i=0;i<lk.n;i++){ if(lk.e[i].kind==LK_CH) continue; 
      vf_assert(j<n,"the log lists nothing that did not happen"); if(j>=n) vf_stop();
      bool ok=kind[j]==LK_NF?(lk.e[i].kind!=LK_SUC):lk.e[i].kind==kind[j]; vf_assert(ok,"the log lists the rejections and failures in order");
      vf_close(lk.e[i].t,t[j],1e-7,"a logged event carries the time at which it happened"); vf_assert(lk.e[i].step==step[j],"a logged event carries the number of the step at which it happened"); ++j; }
    vf_assert(j==n,"every rejection and failure is in the log");
    if(lk.n&&lk.e[0].kind!=LK_SUC) vf_close(lk.e[0].t,x0,1e-9,"the log starts with the integration"); }
  // the step size of an attempt that begins at time x after att attempts
  void step_(double h,double x,int att,double dir){ int k=lk.last(LK_CH); vf_assert(k>=0,"the step size in use is the last one in the log"); if(k<0) vf_stop();
    vf_close(lk.e[k].val,h,1e-7,"the step size in use is the last one in the log"); 
    if(first||vf_decide((h-hold)*dir>1e-6||(h-hold)*dir<-1e-6)){ vf_assert(lk.e[k].step==att,"a change of the step size carries the number of the step at which it happened"); vf_close(lk.e[k].t,x,1e-7,"a change of the step size carries the time at which it happened"); vf_reach("changed"); }
    first=false; hold=h; }
};
static LkGhost lg;
#endif
