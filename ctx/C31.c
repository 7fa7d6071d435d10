/* C31 document trees: edit sequences against a list model of the tree; every node is checked after every edit. */
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
#define MAXN 24
static char const *const NM[MAXN] = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "nA", "nB", "nC", "nD", "nE", "nF", "nG", "nH", "nI", "nJ", "nK", "nL", "nM", "nN" };
static int cont[MAXN], par[MAXN], kid[MAXN][MAXN], nk[MAXN], used; static long val[MAXN];
static zpl_adt_node root;
static int seen;
static void walk(zpl_adt_node *n, int id) {
    int i; seen++; zv_check(n->name == NM[id]); zv_check(n->type == (cont[id] == 1 ? ZPL_ADT_TYPE_OBJECT : cont[id] ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_INTEGER));
    if (!cont[id]) { zv_check(n->integer == val[id]); return; }
    zv_check(zpl_array_count(n->nodes) == nk[id]);
    for (i = 0; i < nk[id]; i++) { zv_check(n->nodes[i].parent == n); walk(n->nodes + i, kid[id][i]); }
}
static int size(int id) { int i, k = 1; for (i = 0; i < nk[id]; i++) k += size(kid[id][i]); return k; }
static void check(void) { seen = 0; walk(&root, 0); zv_check(seen == size(0)); }
static zpl_adt_node *node(int id) { int p, i; if (!id) return &root; p = par[id]; for (i = 0; i < nk[p]; i++) if (kid[p][i] == id) return node(p)->nodes + i; return 0; }
static int index_of(int id) { int i; for (i = 0; i < nk[par[id]]; i++) if (kid[par[id]][i] == id) return i; return -1; }
static void m_ins(int p, int id, int at) { int i; for (i = nk[p]; i > at; i--) kid[p][i] = kid[p][i - 1]; kid[p][at] = id; nk[p]++; par[id] = p; }
static void m_del(int id) { int p = par[id], i; for (i = index_of(id); i + 1 < nk[p]; i++) kid[p][i] = kid[p][i + 1]; nk[p]--; par[id] = -1; }
static int below(int id, int anc) { while (id > 0) { if (id == anc) return 1; id = par[id]; } return id == anc; }
static int add(int p, int kind, int at) {
    zpl_adt_node *n; int id = used++; cont[id] = kind; val[id] = 100 + id;
    if (at < 0) { n = kind == 1 ? zpl_adt_append_obj(node(p), NM[id]) : kind ? zpl_adt_append_arr(node(p), NM[id]) : zpl_adt_append_int(node(p), NM[id], val[id]); at = nk[p]; }
    else { n = zpl_adt_alloc_at(node(p), at); if (n) { if (kind == 1) zpl_adt_set_obj(n, NM[id], zpl_heap()); else if (kind) zpl_adt_set_arr(n, NM[id], zpl_heap()); else zpl_adt_set_int(n, NM[id], val[id]); } }
    zv_check(n != 0); m_ins(p, id, at); zv_check(n == node(id)); return id;
}
/* root { 1, 2:[3,4], 5:{6:[7]}, 8 } plus padding leaves in the root, so that the next one makes it grow */
static void build(int pad) { zpl_adt_node z = { 0 }; root = z; used = 1; cont[0] = 1; par[0] = -1; zv_check(!zpl_adt_make_branch(&root, zpl_heap(), NM[0], 0)); add(0, 0, -1); add(0, 2, -1); add(2, 0, -1); add(2, 0, -1); add(0, 1, -1); add(5, 2, -1); add(6, 0, -1); add(0, 0, -1); while (pad-- > 0) add(0, 0, -1); }
static void done(void) { zpl_adt_destroy_branch(&root); zv_check(zv_live == 0); zv_end(); }
static void op_add(void) { static int const C[] = { 0, 2, 5, 6 }; int p = C[ZV_PICK(0, 3)], kind = ZV_PICK(0, 2); add(p, kind, ZV_PICK(0, 1) ? -1 : ZV_PICK(0, nk[p])); }
static void op_remove(void) { static int const X[] = { 1, 3, 4, 7, 8 }; int id = X[ZV_PICK(0, 4)]; if (par[id] < 0) return; zpl_adt_remove_node(node(id)); m_del(id); }
static void op_drop(void) { static int const X[] = { 2, 5, 6 }; int id = X[ZV_PICK(0, 2)], p; zpl_adt_destroy_branch(node(id)); zpl_adt_remove_node(node(id)); m_del(id); }
static void op_move(int id) { static int const C[] = { 0, 2, 5, 6 }; int p = C[ZV_PICK(0, 3)], at, from; zpl_adt_node *n; if (par[id] < 0 || below(p, id)) return; at = ZV_PICK(0, nk[p]);
    if (at == nk[p] && ZV_PICK(0, 1)) n = zpl_adt_move_node(node(id), node(p)); else n = zpl_adt_move_node_at(node(id), node(p), at);
    from = index_of(id); if (par[id] == p && from < at) at--; m_del(id); m_ins(p, id, at); zv_check(n == node(id)); }
static void op_swap(int a) { static int const X[] = { 1, 2, 3, 4, 5, 7, 8 }; int b = X[ZV_PICK(0, 6)], pa = par[a], pb = par[b], ia, ib; if (pa < 0 || pb < 0 || below(a, b) || below(b, a)) return; ia = index_of(a); ib = index_of(b); zpl_adt_swap_nodes(node(a), node(b)); kid[pa][ia] = b; kid[pb][ib] = a; par[a] = pb; par[b] = pa; }
#ifdef ZV_THOROUGH
#define TWICE 1
#define PAD ZV_PICK(2, 5)
#else
#define TWICE 0
#define PAD (ZV_PICK(0, 1) ? 4 : 3)
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_grow(void) { int i, c; build(0); check(); c = ZV_PICK(0, 3) == 0 ? 0 : ZV_PICK(0, 1) ? 2 : 6; for (i = 0; i < 12; i++) { add(c, i == 3 ? 1 : 0, ZV_PICK(0, 1) && i == 9 ? 0 : -1); check(); } done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_add(void) { build(4); op_add(); check(); add(ZV_PICK(0, 1) ? 0 : 6, 1, 0); check(); done(); }
#ifdef ZV_THOROUGH
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec tier=thorough
void ctx_add2(void) { build(3); op_add(); check(); add(0, ZV_PICK(0, 2), ZV_PICK(0, nk[0])); check(); done(); }
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_remove(void) { build(ZV_PICK(0, 4)); op_remove(); check(); op_remove(); check(); add(0, 0, -1); check(); done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_drop(void) { build(ZV_PICK(0, 4)); op_drop(); check(); add(0, 2, -1); check(); done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_1(void) { build(4); op_move(1); check(); if (TWICE) { op_move(8); check(); } done(); }
#ifdef ZV_THOROUGH
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec tier=thorough
void ctx_move_1_3(void) { build(3); op_move(1); check(); done(); }
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_3(void) { build(4); op_move(3); check(); if (TWICE) { op_move(8); check(); } done(); }
#ifdef ZV_THOROUGH
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec tier=thorough
void ctx_move_3_3(void) { build(3); op_move(3); check(); done(); }
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_7(void) { build(4); op_move(7); check(); if (TWICE) { op_move(8); check(); } done(); }
#ifdef ZV_THOROUGH
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec tier=thorough
void ctx_move_7_3(void) { build(3); op_move(7); check(); done(); }
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_8(void) { build(4); op_move(8); check(); if (TWICE) { op_move(1); check(); } done(); }
#ifdef ZV_THOROUGH
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec tier=thorough
void ctx_move_8_3(void) { build(3); op_move(8); check(); done(); }
#endif
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_tree(void) { static int const X[] = { 2, 5, 6 }; build(PAD); op_move(X[ZV_PICK(0, 2)]); check(); if (TWICE) { op_move(5); check(); } done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_move_then(void) { build(4); op_move(ZV_PICK(0, 1) ? 6 : 2); op_remove(); check(); done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_swap(void) { static int const X[] = { 1, 2, 3, 5, 6, 7 }; build(ZV_PICK(0, 1)); op_swap(X[ZV_PICK(0, 5)]); check(); if (TWICE) { op_swap(5); check(); } add(0, 0, -1); check(); done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_swap_move(void) { build(4); op_swap(5); op_move(7); check(); done(); }
//zv: timeout=800 mlevel=4000 args=-eva-no-memexec
void ctx_swap_move2(void) { build(4); op_swap(2); op_move(7); check(); done(); }
/* a failed allocation changes nothing */
void ctx_fail(void) { int p = ZV_PICK(0, 1), k = ZV_PICK(0, 2), n0; zpl_adt_node *n; build(4); if (k == 2) while (nk[0] < 8) add(0, 0, -1); zv_fail_at = zv_alloc_no;
    n = k == 0 ? zpl_adt_append_arr(node(6), "x") : k == 1 ? zpl_adt_append_obj(node(6), "x") : zpl_adt_move_node(node(7), &root);
    if (k == 2 && n) { m_del(7); m_ins(0, 7, nk[0]); zv_check(n == node(7)); }
    if (k < 2) zv_check(n == 0);
    zv_fail_at = -1; check(); done(); }
/* bad requests are refused */
void ctx_refuse(void) { zpl_adt_node *n = (zpl_adt_node *)1; build(0); switch (ZV_PICK(0, 4)) { case 0: n = zpl_adt_alloc(node(1)); break; case 1: n = zpl_adt_alloc_at(&root, 5); break; case 2: n = zpl_adt_alloc_at(&root, -1); break; case 3: n = zpl_adt_alloc(0); break; case 4: n = zpl_adt_append_int(node(3), "z", 1); break; } zv_check(n == 0); check(); done(); }
/* set changes one node and keeps its place */
void ctx_set(void) { zpl_adt_node *n; int id; build(1); id = ZV_PICK(0, 1) ? 4 : 8; n = node(id); if (ZV_PICK(0, 1)) { zpl_adt_set_str(n, "s", "v"); zv_check(n->type == ZPL_ADT_TYPE_STRING && n->string[0] == 'v'); } else { zpl_adt_set_flt(n, "s", 2.5); zv_check(n->type == ZPL_ADT_TYPE_REAL && n->real == 2.5); } zv_check(n->name[0] == 's' && n->parent == node(par[id])); zpl_adt_set_int(n, NM[id], val[id]); check(); done(); }
/* look-ups */
void ctx_find(void) {
    static char const *const Q[] = { "n1", "n3", "n7", "n5", "zz", "n6", "n0" }; static int const S[] = { 1, 0, 0, 5, 0, 0, 0 }, D[] = { 1, 0, 0, 5, 0, 6, 0 }; int k = ZV_PICK(0, 6); zpl_adt_node *n; build(2);
    n = zpl_adt_find(&root, Q[k], 0); zv_check(n == (S[k] ? node(S[k]) : 0));
    n = zpl_adt_find(&root, Q[k], 1); zv_check(n == (D[k] ? node(D[k]) : 0));
    n = zpl_adt_find(node(2), Q[k], 1); zv_check(n == 0); done();
}
void ctx_query(void) {
    static char const *const Q[] = { "", "/", "n1", "/n1", "n2/0", "n2/1", "n2/2", "n2/-1", "n5/n6/0", "n5/n6/1", "n1/x", "zz", "zz/y", "n2/[103]", "n2/[104]", "n2/[999]", "n5/n6/[107]", "n5", "n5/n6", "[n1=101]", "[n1=102]", "[n8=108]/n2/1", "n9/[nB=112]/nC", "n9/[nA=0]", "n9/[nC=113]" };
    static int const R[] = { 0, 0, 1, 1, 3, 4, -1, -1, 7, -1, -1, -1, -1, 3, 4, -1, 7, 5, 6, 0, -1, 4, -1, -1, -1 }; int k = ZV_PICK(0, 24); zpl_adt_node *n; build(0);
    add(0, 2, -1); add(9, 1, -1); add(10, 0, -1); add(9, 1, -1); add(12, 0, -1); /* 9:[10:{11}, 12:{13}] */
    n = zpl_adt_query(&root, Q[k]);
    if (k == 22) zv_check(n == 0); else zv_check(n == (R[k] < 0 ? 0 : node(R[k]))); check(); done();
}
void ctx_query_obj(void) { zpl_adt_node *n; build(0); add(0, 2, -1); add(9, 1, -1); add(10, 0, -1); add(9, 1, -1); add(12, 0, -1); if (ZV_PICK(0, 1)) { n = zpl_adt_query(&root, "n9/[nD=113]"); zv_check(n == node(12)); } else { n = zpl_adt_query(&root, "n9/[nB=111]/nB"); zv_check(n == node(11)); } done(); }
