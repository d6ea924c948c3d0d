// Written by tools/gen_p09.py.
#include "p09m.hpp"

struct MInjectConstructNamed0 : Made {  std::vector<int> all() const override { return {  }; } BalauInjectConstructNamed(MInjectConstructNamed0) };
struct MInjectConstructNamed1 : Made { int f0; std::vector<int> all() const override { return { f0 }; } BalauInjectConstructNamed(MInjectConstructNamed1, f0, "n0") };
struct MInjectConstructNamed2 : Made { int f0; int f1; std::vector<int> all() const override { return { f0, f1 }; } BalauInjectConstructNamed(MInjectConstructNamed2, f0, "n0", f1, "n1") };
struct MInjectConstructNamed3 : Made { int f0; int f1; int f2; std::vector<int> all() const override { return { f0, f1, f2 }; } BalauInjectConstructNamed(MInjectConstructNamed3, f0, "n0", f1, "n1", f2, "n2") };
struct MInjectConstructNamed4 : Made { int f0; int f1; int f2; int f3; std::vector<int> all() const override { return { f0, f1, f2, f3 }; } BalauInjectConstructNamed(MInjectConstructNamed4, f0, "n0", f1, "n1", f2, "n2", f3, "n3") };
struct MInjectConstructNamed5 : Made { int f0; int f1; int f2; int f3; int f4; std::vector<int> all() const override { return { f0, f1, f2, f3, f4 }; } BalauInjectConstructNamed(MInjectConstructNamed5, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4") };
struct MInjectConstructNamed6 : Made { int f0; int f1; int f2; int f3; int f4; int f5; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5 }; } BalauInjectConstructNamed(MInjectConstructNamed6, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5") };
struct MInjectConstructNamed7 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6 }; } BalauInjectConstructNamed(MInjectConstructNamed7, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6") };
struct MInjectConstructNamed8 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7 }; } BalauInjectConstructNamed(MInjectConstructNamed8, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7") };
struct MInjectConstructNamed9 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8 }; } BalauInjectConstructNamed(MInjectConstructNamed9, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8") };
struct MInjectConstructNamed10 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9 }; } BalauInjectConstructNamed(MInjectConstructNamed10, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9") };
struct MInjectConstructNamed11 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10 }; } BalauInjectConstructNamed(MInjectConstructNamed11, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10") };
struct MInjectConstructNamed12 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11 }; } BalauInjectConstructNamed(MInjectConstructNamed12, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11") };
struct MInjectConstructNamed13 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12 }; } BalauInjectConstructNamed(MInjectConstructNamed13, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12") };
struct MInjectConstructNamed14 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13 }; } BalauInjectConstructNamed(MInjectConstructNamed14, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13") };
struct MInjectConstructNamed15 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; int f14; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14 }; } BalauInjectConstructNamed(MInjectConstructNamed15, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13", f14, "n14") };
struct MInjectConstructNamed16 : Made { int f0; int f1; int f2; int f3; int f4; int f5; int f6; int f7; int f8; int f9; int f10; int f11; int f12; int f13; int f14; int f15; std::vector<int> all() const override { return { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15 }; } BalauInjectConstructNamed(MInjectConstructNamed16, f0, "n0", f1, "n1", f2, "n2", f3, "n3", f4, "n4", f5, "n5", f6, "n6", f7, "n7", f8, "n8", f9, "n9", f10, "n10", f11, "n11", f12, "n12", f13, "n13", f14, "n14", f15, "n15") };
void macros3(vk::Ctx & ctx) {
	macro<MInjectConstructNamed0>(ctx, "InjectConstructNamed", 0, true);
	macro<MInjectConstructNamed1>(ctx, "InjectConstructNamed", 1, true);
	macro<MInjectConstructNamed2>(ctx, "InjectConstructNamed", 2, true);
	macro<MInjectConstructNamed3>(ctx, "InjectConstructNamed", 3, true);
	macro<MInjectConstructNamed4>(ctx, "InjectConstructNamed", 4, true);
	macro<MInjectConstructNamed5>(ctx, "InjectConstructNamed", 5, true);
	macro<MInjectConstructNamed6>(ctx, "InjectConstructNamed", 6, true);
	macro<MInjectConstructNamed7>(ctx, "InjectConstructNamed", 7, true);
	macro<MInjectConstructNamed8>(ctx, "InjectConstructNamed", 8, true);
	macro<MInjectConstructNamed9>(ctx, "InjectConstructNamed", 9, true);
	macro<MInjectConstructNamed10>(ctx, "InjectConstructNamed", 10, true);
	macro<MInjectConstructNamed11>(ctx, "InjectConstructNamed", 11, true);
	macro<MInjectConstructNamed12>(ctx, "InjectConstructNamed", 12, true);
	macro<MInjectConstructNamed13>(ctx, "InjectConstructNamed", 13, true);
	macro<MInjectConstructNamed14>(ctx, "InjectConstructNamed", 14, true);
	macro<MInjectConstructNamed15>(ctx, "InjectConstructNamed", 15, true);
	macro<MInjectConstructNamed16>(ctx, "InjectConstructNamed", 16, true);
}
