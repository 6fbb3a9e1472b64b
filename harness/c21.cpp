// C21: the history tree.
#include "common.hpp"
#include "utils/tree_node.hpp"
#include <set>

struct T {
	TreeNode root; std::vector<TreeNode*> n; std::vector<int> par;
	T(int count) { n.push_back(&root); par.push_back(-1); for(int i = 1; i < count; ++i) { int p = (int) sym_pick(("parent" + std::to_string(i)).c_str(), 0, i - 1); n.push_back(&n[p]->add_child()); par.push_back(p); } }
	bool anc(int a, int d) { for(int k = par[d]; k >= 0; k = par[k]) if(k == a) return true; return false; } // strict
	bool leaf(int a) { for(size_t i = 0; i < n.size(); ++i) if(par[i] == a) return false; return true; }
};
static std::set<TreeNode*> S(std::vector<TreeNode*> const& v) { return { v.begin(), v.end() }; }
static void relations(int count) {
	T t(count);
	int a = (int) sym_pick("a", 0, count - 1), b = (int) sym_pick("b", 0, count - 1); bool self = sym_bool("self");
	sym_assert(t.n[a]->parent() == (t.par[a] < 0 ? nullptr : t.n[t.par[a]]), "parent");
	sym_assert(t.n[a]->root() == t.n[0], "root");
	sym_assert(t.n[a]->is_root() == (a == 0) && t.n[a]->is_leaf() == t.leaf(a), "is_root / is_leaf");
	sym_assert(t.n[a]->is_descendant_of(*t.n[b]) == t.anc(b, a) && t.n[b]->is_ancestor_of(*t.n[a]) == t.anc(b, a), "descendant and ancestor relations");
	sym_assert((*t.n[a] == *t.n[b]) == (a == b) && (t.n[a]->id == t.n[b]->id) == (a == b), "nodes are equal iff they are the same and ids are unique");
	std::vector<TreeNode*> up; if(self) up.push_back(t.n[a]); for(int k = t.par[a]; k >= 0; k = t.par[k]) up.push_back(t.n[k]);
	sym_assert(t.n[a]->ancestors(self) == up, "ancestors are listed from the nearest to the root");
	std::set<TreeNode*> cl, lf;
	for(int k = 0; k < count; ++k) { if(t.anc(a, k) || (self && k == a)) cl.insert(t.n[k]); if((t.anc(a, k) || (self && k == a)) && t.leaf(k)) lf.insert(t.n[k]); }
	auto c = t.n[a]->cluster(self), l = t.n[a]->leafs(self);
	sym_assert(S(c) == cl && c.size() == cl.size(), "cluster lists every descendant once");
	sym_assert(S(l) == lf && l.size() == lf.size(), "leafs lists every descendant without child once");
	TreeNode* best = nullptr;
	for(int k = self ? a : t.par[a]; k >= 0 && !best; k = t.par[k]) if(t.anc(k, b) || (self && k == b)) best = t.n[k];
	sym_assert(t.n[a]->common_ancestor(*t.n[b], self) == best, "common ancestor is the nearest shared one");
	sym_assert(common_ancestor(*t.n[b], *t.n[a], self) == best, "common ancestor is symmetric");
}
SYM_CASE(relations5, 2, "every tree of 5 nodes, every pair of nodes") { relations(5); }
SYM_CASE(relations6, 1, "every tree of 6 nodes, every pair of nodes") { relations(6); }
static void erase_(int count) {
	T t(count); std::set<TreeNode*> del; std::vector<bool> d;
	for(int i = 0; i < count; ++i) { bool x = sym_bool(("erase" + std::to_string(i)).c_str()); d.push_back(x); if(x) del.insert(t.n[i]); }
	int a = (int) sym_pick("from", 0, count - 1);
	std::set<TreeNode*> keep;
	for(int k = 0; k < count; ++k) {
		bool gone = false;
		for(int j = k; j > 0; j = t.par[j]) if(d[j] && t.anc(a, j)) gone = true;
		if(!gone) keep.insert(t.n[k]);
	}
	t.n[a]->erase_from_descendants(del);
	auto c = t.root.cluster(true);
	sym_assert(S(c) == keep && c.size() == keep.size(), "erasing removes the listed descendants with all below them and nothing else");
}
SYM_CASE(erase4, 2, "every tree of 4 nodes, any set to erase, from any node") { erase_(4); }
SYM_CASE(erase5, 1, "every tree of 5 nodes, any set to erase, from any node") { erase_(5); }
SYM_CASE(disjoint, 0, "two trees of 2 nodes") {
	TreeNode r, q; auto& a = r.add_child(); auto& b = q.add_child(); bool s = sym_bool("self");
	sym_assert(!a.common_ancestor(b, s) && a.root() != b.root() && !a.is_descendant_of(q), "nodes of different trees share no ancestor");
}
