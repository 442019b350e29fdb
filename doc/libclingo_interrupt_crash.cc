// libclingo 5.6.2 crashes on its own if a parallel search is interrupted right at its start.
// g++ -std=c++17 libclingo_interrupt_crash.cc -lclingo -pthread && ./a.out 1
#include <clingo.hh>
#include <thread>
#include <iostream>
#include <random>
using namespace Clingo;
int main(int argc,char**argv){ std::mt19937 r(std::stoi(argv[1]));
 for(int i=0;i<3000;++i){ Control c{{"0","-t3"}}; c.add("base",{},"{a;b;c;d}. :- a,b."); c.ground({{"base",{}}});
  for (int k=0;k<4;++k){ SolveEventHandler h; auto hd=c.solve(SymbolicLiteralSpan{},&h,true,false); for(volatile int j=0, n=r()%20000;j<n;j=j+1); if(r()%2) c.interrupt(); else hd.cancel(); hd.get(); } }
}
