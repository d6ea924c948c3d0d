// Written by tools/gen_p09.py.
#include "p09m.hpp"

struct MHeaderBody0 : Made {  std::vector<int> all() const override { return {  }; } BalauInjectHeaderConstruct(MHeaderBody0); };
BalauInjectBody(MHeaderBody0);
struct MHeaderBody1 : Made { Tag<0> f0; std::vector<int> all() const override { return { f0.v }; } BalauInjectHeaderConstruct(MHeaderBody1, f0); };
BalauInjectBody(MHeaderBody1, f0);
struct MHeaderBody2 : Made { Tag<0> f0; Tag<1> f1; std::vector<int> all() const override { return { f0.v, f1.v }; } BalauInjectHeaderConstruct(MHeaderBody2, f0, f1); };
BalauInjectBody(MHeaderBody2, f0, f1);
struct MHeaderBody3 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; std::vector<int> all() const override { return { f0.v, f1.v, f2.v }; } BalauInjectHeaderConstruct(MHeaderBody3, f0, f1, f2); };
BalauInjectBody(MHeaderBody3, f0, f1, f2);
struct MHeaderBody4 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v }; } BalauInjectHeaderConstruct(MHeaderBody4, f0, f1, f2, f3); };
BalauInjectBody(MHeaderBody4, f0, f1, f2, f3);
struct MHeaderBody5 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v }; } BalauInjectHeaderConstruct(MHeaderBody5, f0, f1, f2, f3, f4); };
BalauInjectBody(MHeaderBody5, f0, f1, f2, f3, f4);
struct MHeaderBody6 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v }; } BalauInjectHeaderConstruct(MHeaderBody6, f0, f1, f2, f3, f4, f5); };
BalauInjectBody(MHeaderBody6, f0, f1, f2, f3, f4, f5);
struct MHeaderBody7 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v }; } BalauInjectHeaderConstruct(MHeaderBody7, f0, f1, f2, f3, f4, f5, f6); };
BalauInjectBody(MHeaderBody7, f0, f1, f2, f3, f4, f5, f6);
struct MHeaderBody8 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v }; } BalauInjectHeaderConstruct(MHeaderBody8, f0, f1, f2, f3, f4, f5, f6, f7); };
BalauInjectBody(MHeaderBody8, f0, f1, f2, f3, f4, f5, f6, f7);
struct MHeaderBody9 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v }; } BalauInjectHeaderConstruct(MHeaderBody9, f0, f1, f2, f3, f4, f5, f6, f7, f8); };
BalauInjectBody(MHeaderBody9, f0, f1, f2, f3, f4, f5, f6, f7, f8);
struct MHeaderBody10 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v }; } BalauInjectHeaderConstruct(MHeaderBody10, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9); };
BalauInjectBody(MHeaderBody10, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9);
struct MHeaderBody11 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v }; } BalauInjectHeaderConstruct(MHeaderBody11, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10); };
BalauInjectBody(MHeaderBody11, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10);
struct MHeaderBody12 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v }; } BalauInjectHeaderConstruct(MHeaderBody12, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11); };
BalauInjectBody(MHeaderBody12, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11);
struct MHeaderBody13 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v }; } BalauInjectHeaderConstruct(MHeaderBody13, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12); };
BalauInjectBody(MHeaderBody13, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12);
struct MHeaderBody14 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v }; } BalauInjectHeaderConstruct(MHeaderBody14, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13); };
BalauInjectBody(MHeaderBody14, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13);
struct MHeaderBody15 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; Tag<14> f14; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v, f14.v }; } BalauInjectHeaderConstruct(MHeaderBody15, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14); };
BalauInjectBody(MHeaderBody15, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14);
struct MHeaderBody16 : Made { Tag<0> f0; Tag<1> f1; Tag<2> f2; Tag<3> f3; Tag<4> f4; Tag<5> f5; Tag<6> f6; Tag<7> f7; Tag<8> f8; Tag<9> f9; Tag<10> f10; Tag<11> f11; Tag<12> f12; Tag<13> f13; Tag<14> f14; Tag<15> f15; std::vector<int> all() const override { return { f0.v, f1.v, f2.v, f3.v, f4.v, f5.v, f6.v, f7.v, f8.v, f9.v, f10.v, f11.v, f12.v, f13.v, f14.v, f15.v }; } BalauInjectHeaderConstruct(MHeaderBody16, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15); };
BalauInjectBody(MHeaderBody16, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15);
void macros6(vk::Ctx & ctx) {
	macro<MHeaderBody0>(ctx, "HeaderBody", 0, false);
	macro<MHeaderBody1>(ctx, "HeaderBody", 1, false);
	macro<MHeaderBody2>(ctx, "HeaderBody", 2, false);
	macro<MHeaderBody3>(ctx, "HeaderBody", 3, false);
	macro<MHeaderBody4>(ctx, "HeaderBody", 4, false);
	macro<MHeaderBody5>(ctx, "HeaderBody", 5, false);
	macro<MHeaderBody6>(ctx, "HeaderBody", 6, false);
	macro<MHeaderBody7>(ctx, "HeaderBody", 7, false);
	macro<MHeaderBody8>(ctx, "HeaderBody", 8, false);
	macro<MHeaderBody9>(ctx, "HeaderBody", 9, false);
	macro<MHeaderBody10>(ctx, "HeaderBody", 10, false);
	macro<MHeaderBody11>(ctx, "HeaderBody", 11, false);
	macro<MHeaderBody12>(ctx, "HeaderBody", 12, false);
	macro<MHeaderBody13>(ctx, "HeaderBody", 13, false);
	macro<MHeaderBody14>(ctx, "HeaderBody", 14, false);
	macro<MHeaderBody15>(ctx, "HeaderBody", 15, false);
	macro<MHeaderBody16>(ctx, "HeaderBody", 16, false);
}
