// Written by tools/gen_p09.py.
#include "p09m.hpp"

struct MInjectConstruct0 : Made {  std::vector<int> all() const override { return {  }; } BalauInjectConstruct(MInjectConstruct0) };
struct MInjectConstruct1 : Made { Tag<0> f0; std::vector<int> all() const override { return { f0.v }; } BalauInjectConstruct(MInjectConstruct1, f0) };
struct MInjectConstruct2 : Made { Tag<0> f0; Tag<1> f1; std::vector<int> all() const override { return { f0.v, f1.v }; } BalauInjectConstruct(MInjectConstruct2, f0, f1) };
struct MInjectConstruct3 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; std::vector<int> all() const override { return { f0.v, f1.v, f2.v }; } BalauInjectConstruct(MInjectConstruct3, f0, f1, f2) };
struct MInjectConstruct4 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v }; } BalauInjectConstruct(MInjectConstruct4, f0, f1, f2, f3) };
struct MInjectConstruct5 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v }; } BalauInjectConstruct(MInjectConstruct5, f0, f1, f2, f3, f4) };
struct MInjectConstruct6 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v }; } BalauInjectConstruct(MInjectConstruct6, f0, f1, f2, f3, f4, f5) };
struct MInjectConstruct7 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v }; } BalauInjectConstruct(MInjectConstruct7, f0, f1, f2, f3, f4, f5, f6) };
struct MInjectConstruct8 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v }; } BalauInjectConstruct(MInjectConstruct8, f0, f1, f2, f3, f4, f5, f6, f7) };
struct MInjectConstruct9 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v }; } BalauInjectConstruct(MInjectConstruct9, f0, f1, f2, f3, f4, f5, f6, f7, f8) };
struct MInjectConstruct10 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v }; } BalauInjectConstruct(MInjectConstruct10, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9) };
struct MInjectConstruct11 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v }; } BalauInjectConstruct(MInjectConstruct11, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10) };
struct MInjectConstruct12 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v }; } BalauInjectConstruct(MInjectConstruct12, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11) };
struct MInjectConstruct13 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v }; } BalauInjectConstruct(MInjectConstruct13, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12) };
struct MInjectConstruct14 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v }; } BalauInjectConstruct(MInjectConstruct14, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13) };
struct MInjectConstruct15 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; Tag<14> f14; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v, f14.v }; } BalauInjectConstruct(MInjectConstruct15, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14) };
struct MInjectConstruct16 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; Tag<14> f14; Tag<15> f15; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v, f14.v, f15.v }; } BalauInjectConstruct(MInjectConstruct16, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15) };
void macros2(vk::Ctx & ctx) {
	macro<MInjectConstruct0>(ctx, "InjectConstruct", 0, false);
	macro<MInjectConstruct1>(ctx, "InjectConstruct", 1, false);
	macro<MInjectConstruct2>(ctx, "InjectConstruct", 2, false);
	macro<MInjectConstruct3>(ctx, "InjectConstruct", 3, false);
	macro<MInjectConstruct4>(ctx, "InjectConstruct", 4, false);
	macro<MInjectConstruct5>(ctx, "InjectConstruct", 5, false);
	macro<MInjectConstruct6>(ctx, "InjectConstruct", 6, false);
	macro<MInjectConstruct7>(ctx, "InjectConstruct", 7, false);
	macro<MInjectConstruct8>(ctx, "InjectConstruct", 8, false);
	macro<MInjectConstruct9>(ctx, "InjectConstruct", 9, false);
	macro<MInjectConstruct10>(ctx, "InjectConstruct", 10, false);
	macro<MInjectConstruct11>(ctx, "InjectConstruct", 11, false);
	macro<MInjectConstruct12>(ctx, "InjectConstruct", 12, false);
	macro<MInjectConstruct13>(ctx, "InjectConstruct", 13, false);
	macro<MInjectConstruct14>(ctx, "InjectConstruct", 14, false);
	macro<MInjectConstruct15>(ctx, "InjectConstruct", 15, false);
	macro<MInjectConstruct16>(ctx, "InjectConstruct", 16, false);
}
