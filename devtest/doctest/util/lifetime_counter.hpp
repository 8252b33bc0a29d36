#pragma once
#include <doctest/doctest.h>
namespace doctest::util {
struct lifetime_stats { int living=0,total=0,copies=0,m_ctr=0,c_ctr=0,d_ctr=0,m_asgn=0,c_asgn=0; lifetime_stats* prev=nullptr; lifetime_stats** root=nullptr;};
template <typename T> struct lifetime_counter {
  struct lifetime_stats : util::lifetime_stats {
     lifetime_stats(){ prev=head(); root=&head(); head()=this; }
     lifetime_stats(const lifetime_stats&)=delete;
     ~lifetime_stats(){ head()=prev; }
  };
  static util::lifetime_stats*& head(){ static util::lifetime_stats* h=nullptr; return h; }
  template<class F> static void e(F f){ for(auto*h=head();h;h=h->prev) f(*h);}
  lifetime_counter(){ e([](auto&s){++s.living;++s.total;++s.d_ctr;}); }
  lifetime_counter(const lifetime_counter&){ e([](auto&s){++s.living;++s.total;++s.c_ctr;++s.copies;}); }
  lifetime_counter(lifetime_counter&&)noexcept{ e([](auto&s){++s.living;++s.total;++s.m_ctr;}); }
  lifetime_counter& operator=(const lifetime_counter&){ e([](auto&s){++s.copies;++s.c_asgn;}); return *this;}
  lifetime_counter& operator=(lifetime_counter&&)noexcept{ e([](auto&s){++s.m_asgn;});return *this; }
  ~lifetime_counter(){ e([](auto&s){--s.living;}); }
};
struct lifetime_counter_sentry { util::lifetime_stats& s; lifetime_counter_sentry(util::lifetime_stats& x):s(x){} ~lifetime_counter_sentry(){ CHECK(s.living==0);} };
}
