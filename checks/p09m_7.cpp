// Written by tools/gen_p09.py.
#include "p09m.hpp"

struct MHeaderBodyNamed0 : Made {  std::vector<int> all() const override { return {  }; } BalauInjectHeaderConstruct(MHeaderBodyNamed0); };
BalauInjectBodyNamed(MHeaderBodyNamed0);
struct MHeaderBodyNamed1 : Made { int f0; std::vector<int> all() const override { return { f0 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed1, f0); };
BalauInjectBodyNamed(MHeaderBodyNamed1, f0, "n0");
struct MHeaderBodyNamed2 : Made { int f0; int f1; std::vector<int> all() const override { return { f0, f1 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed2, f0, f1); };
BalauInjectBodyNamed(MHeaderBodyNamed2, f0, "n0", f1, "n1");
struct MHeaderBodyNamed3 : Made { int f0; int f1; int f2; std::vector<int> all() const override { return { f0, f1, f2 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed3, f0, f1, f2); };
BalauInjectBodyNamed(MHeaderBodyNamed3, f0, "n0", f1, "n1", f2, "n2");
struct MHeaderBodyNamed4 : Made { int f0; int f1; int f2; int f3; std::vector<int> all() const override { return { f0, f1, f2, f3 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed4, f0, f1, f2, f3); };
BalauInjectBodyNamed(MHeaderBodyNamed4, f0, "n0", f1, "n1", f2, "n2", f3, "n3");
struct MHeaderBodyNamed5 : Made { int f0; int f1; int f2; int f3; int f4; std::vector<int> all() const override { return { f0, f1, f2, f3, f4 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed5, f0, f1, f2, f3, f4); };
BalauInjectBodyNamed(MHeaderBodyNamed5, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4");
struct MHeaderBodyNamed6 : Made { int f0; int f1; int f2; int f3; int f4; int f5; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed6, f0, f1, f2, f3, f4, f5); };
BalauInjectBodyNamed(MHeaderBodyNamed6, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5");
struct MHeaderBodyNamed7 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed7, f0, f1, f2, f3, f4, f5, f6); };
BalauInjectBodyNamed(MHeaderBodyNamed7, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6");
struct MHeaderBodyNamed8 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed8, f0, f1, f2, f3, f4, f5, f6, f7); };
BalauInjectBodyNamed(MHeaderBodyNamed8, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7");
struct MHeaderBodyNamed9 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed9, f0, f1, f2, f3, f4, f5, f6, f7, f8); };
BalauInjectBodyNamed(MHeaderBodyNamed9, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8");
struct MHeaderBodyNamed10 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed10, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9); };
BalauInjectBodyNamed(MHeaderBodyNamed10, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9");
struct MHeaderBodyNamed11 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed11, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10); };
BalauInjectBodyNamed(MHeaderBodyNamed11, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10");
struct MHeaderBodyNamed12 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed12, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11); };
BalauInjectBodyNamed(MHeaderBodyNamed12, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11");
struct MHeaderBodyNamed13 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed13, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12); };
BalauInjectBodyNamed(MHeaderBodyNamed13, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12");
struct MHeaderBodyNamed14 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed14, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13); };
BalauInjectBodyNamed(MHeaderBodyNamed14, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13");
struct MHeaderBodyNamed15 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; int f14; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed15, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14); };
BalauInjectBodyNamed(MHeaderBodyNamed15, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13", f14, "n14");
struct MHeaderBodyNamed16 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; int f14; int f15; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15 }; } BalauInjectHeaderConstruct(MHeaderBodyNamed16, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15); };
BalauInjectBodyNamed(MHeaderBodyNamed16, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13", f14, "n14", f15, "n15");
void macros7(vk::Ctx & ctx) {
	macro<MHeaderBodyNamed0>(ctx, "HeaderBodyNamed", 0, true);
	macro<MHeaderBodyNamed1>(ctx, "HeaderBodyNamed", 1, true);
	macro<MHeaderBodyNamed2>(ctx, "HeaderBodyNamed", 2, true);
	macro<MHeaderBodyNamed3>(ctx, "HeaderBodyNamed", 3, true);
	macro<MHeaderBodyNamed4>(ctx, "HeaderBodyNamed", 4, true);
	macro<MHeaderBodyNamed5>(ctx, "HeaderBodyNamed", 5, true);
	macro<MHeaderBodyNamed6>(ctx, "HeaderBodyNamed", 6, true);
	macro<MHeaderBodyNamed7>(ctx, "HeaderBodyNamed", 7, true);
	macro<MHeaderBodyNamed8>(ctx, "HeaderBodyNamed", 8, true);
	macro<MHeaderBodyNamed9>(ctx, "HeaderBodyNamed", 9, true);
	macro<MHeaderBodyNamed10>(ctx, "HeaderBodyNamed", 10, true);
	macro<MHeaderBodyNamed11>(ctx, "HeaderBodyNamed", 11, true);
	macro<MHeaderBodyNamed12>(ctx, "HeaderBodyNamed", 12, true);
	macro<MHeaderBodyNamed13>(ctx, "HeaderBodyNamed", 13, true);
	macro<MHeaderBodyNamed14>(ctx, "HeaderBodyNamed", 14, true);
	macro<MHeaderBodyNamed15>(ctx, "HeaderBodyNamed", 15, true);
	macro<MHeaderBodyNamed16>(ctx, "HeaderBodyNamed", 16, true);
}
