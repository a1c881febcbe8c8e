// P28: structs of 0 to 100 fields.
#pragma once
#include <mc.h>
#include <array>
#include <memory>
#include <string>
#include <vector>
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/cppextension/TupleDiff.h>
using std::string;
using namespace maf::nstl;
#define F10(p) int p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9;
template <int N> struct S;
template <> struct S<0> { static constexpr int n = 0;  };
template <> struct S<1> { static constexpr int n = 1; int g0; };
template <> struct S<2> { static constexpr int n = 2; int g0, g1; };
template <> struct S<3> { static constexpr int n = 3; int g0, g1, g2; };
template <> struct S<4> { static constexpr int n = 4; int g0, g1, g2, g3; };
template <> struct S<5> { static constexpr int n = 5; int g0, g1, g2, g3, g4; };
template <> struct S<6> { static constexpr int n = 6; int g0, g1, g2, g3, g4, g5; };
template <> struct S<7> { static constexpr int n = 7; int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<8> { static constexpr int n = 8; int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<9> { static constexpr int n = 9; int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<10> { static constexpr int n = 10; F10(f0)  };
template <> struct S<11> { static constexpr int n = 11; F10(f0) int g0; };
template <> struct S<12> { static constexpr int n = 12; F10(f0) int g0, g1; };
template <> struct S<13> { static constexpr int n = 13; F10(f0) int g0, g1, g2; };
template <> struct S<14> { static constexpr int n = 14; F10(f0) int g0, g1, g2, g3; };
template <> struct S<15> { static constexpr int n = 15; F10(f0) int g0, g1, g2, g3, g4; };
template <> struct S<16> { static constexpr int n = 16; F10(f0) int g0, g1, g2, g3, g4, g5; };
template <> struct S<17> { static constexpr int n = 17; F10(f0) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<18> { static constexpr int n = 18; F10(f0) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<19> { static constexpr int n = 19; F10(f0) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<20> { static constexpr int n = 20; F10(f0) F10(f1)  };
template <> struct S<21> { static constexpr int n = 21; F10(f0) F10(f1) int g0; };
template <> struct S<22> { static constexpr int n = 22; F10(f0) F10(f1) int g0, g1; };
template <> struct S<23> { static constexpr int n = 23; F10(f0) F10(f1) int g0, g1, g2; };
template <> struct S<24> { static constexpr int n = 24; F10(f0) F10(f1) int g0, g1, g2, g3; };
template <> struct S<25> { static constexpr int n = 25; F10(f0) F10(f1) int g0, g1, g2, g3, g4; };
template <> struct S<26> { static constexpr int n = 26; F10(f0) F10(f1) int g0, g1, g2, g3, g4, g5; };
template <> struct S<27> { static constexpr int n = 27; F10(f0) F10(f1) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<28> { static constexpr int n = 28; F10(f0) F10(f1) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<29> { static constexpr int n = 29; F10(f0) F10(f1) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<30> { static constexpr int n = 30; F10(f0) F10(f1) F10(f2)  };
template <> struct S<31> { static constexpr int n = 31; F10(f0) F10(f1) F10(f2) int g0; };
template <> struct S<32> { static constexpr int n = 32; F10(f0) F10(f1) F10(f2) int g0, g1; };
template <> struct S<33> { static constexpr int n = 33; F10(f0) F10(f1) F10(f2) int g0, g1, g2; };
template <> struct S<34> { static constexpr int n = 34; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3; };
template <> struct S<35> { static constexpr int n = 35; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3, g4; };
template <> struct S<36> { static constexpr int n = 36; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3, g4, g5; };
template <> struct S<37> { static constexpr int n = 37; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<38> { static constexpr int n = 38; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<39> { static constexpr int n = 39; F10(f0) F10(f1) F10(f2) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<40> { static constexpr int n = 40; F10(f0) F10(f1) F10(f2) F10(f3)  };
template <> struct S<41> { static constexpr int n = 41; F10(f0) F10(f1) F10(f2) F10(f3) int g0; };
template <> struct S<42> { static constexpr int n = 42; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1; };
template <> struct S<43> { static constexpr int n = 43; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2; };
template <> struct S<44> { static constexpr int n = 44; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3; };
template <> struct S<45> { static constexpr int n = 45; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3, g4; };
template <> struct S<46> { static constexpr int n = 46; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3, g4, g5; };
template <> struct S<47> { static constexpr int n = 47; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<48> { static constexpr int n = 48; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<49> { static constexpr int n = 49; F10(f0) F10(f1) F10(f2) F10(f3) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<50> { static constexpr int n = 50; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4)  };
template <> struct S<51> { static constexpr int n = 51; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0; };
template <> struct S<52> { static constexpr int n = 52; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1; };
template <> struct S<53> { static constexpr int n = 53; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2; };
template <> struct S<54> { static constexpr int n = 54; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3; };
template <> struct S<55> { static constexpr int n = 55; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3, g4; };
template <> struct S<56> { static constexpr int n = 56; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3, g4, g5; };
template <> struct S<57> { static constexpr int n = 57; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<58> { static constexpr int n = 58; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<59> { static constexpr int n = 59; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<60> { static constexpr int n = 60; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5)  };
template <> struct S<61> { static constexpr int n = 61; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0; };
template <> struct S<62> { static constexpr int n = 62; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1; };
template <> struct S<63> { static constexpr int n = 63; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2; };
template <> struct S<64> { static constexpr int n = 64; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3; };
template <> struct S<65> { static constexpr int n = 65; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3, g4; };
template <> struct S<66> { static constexpr int n = 66; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3, g4, g5; };
template <> struct S<67> { static constexpr int n = 67; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<68> { static constexpr int n = 68; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<69> { static constexpr int n = 69; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<70> { static constexpr int n = 70; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6)  };
template <> struct S<71> { static constexpr int n = 71; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0; };
template <> struct S<72> { static constexpr int n = 72; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1; };
template <> struct S<73> { static constexpr int n = 73; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2; };
template <> struct S<74> { static constexpr int n = 74; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3; };
template <> struct S<75> { static constexpr int n = 75; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3, g4; };
template <> struct S<76> { static constexpr int n = 76; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3, g4, g5; };
template <> struct S<77> { static constexpr int n = 77; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<78> { static constexpr int n = 78; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<79> { static constexpr int n = 79; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<80> { static constexpr int n = 80; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7)  };
template <> struct S<81> { static constexpr int n = 81; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0; };
template <> struct S<82> { static constexpr int n = 82; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1; };
template <> struct S<83> { static constexpr int n = 83; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2; };
template <> struct S<84> { static constexpr int n = 84; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3; };
template <> struct S<85> { static constexpr int n = 85; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3, g4; };
template <> struct S<86> { static constexpr int n = 86; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3, g4, g5; };
template <> struct S<87> { static constexpr int n = 87; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<88> { static constexpr int n = 88; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<89> { static constexpr int n = 89; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<90> { static constexpr int n = 90; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8)  };
template <> struct S<91> { static constexpr int n = 91; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0; };
template <> struct S<92> { static constexpr int n = 92; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1; };
template <> struct S<93> { static constexpr int n = 93; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2; };
template <> struct S<94> { static constexpr int n = 94; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3; };
template <> struct S<95> { static constexpr int n = 95; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3, g4; };
template <> struct S<96> { static constexpr int n = 96; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3, g4, g5; };
template <> struct S<97> { static constexpr int n = 97; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3, g4, g5, g6; };
template <> struct S<98> { static constexpr int n = 98; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3, g4, g5, g6, g7; };
template <> struct S<99> { static constexpr int n = 99; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) int g0, g1, g2, g3, g4, g5, g6, g7, g8; };
template <> struct S<100> { static constexpr int n = 100; F10(f0) F10(f1) F10(f2) F10(f3) F10(f4) F10(f5) F10(f6) F10(f7) F10(f8) F10(f9)  };
