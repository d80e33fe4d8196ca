#include "laws.hpp"

namespace laws
{
typedef RTree<int>      Tree;
typedef Tree::Node      Node;
typedef Tree::iterator  It;

// the node handed out next, and the one given back
extern Node* spare;
extern Node* gone;
extern int   nGone, nRenewed, nMade;
inline Node* made(Tree* t, const BoundingBox& b)
{
    ++nMade;
    spare->bounds = b;
    spare->parent = spare->left = spare->right = nullptr;
    spare->data = nullptr;
    return spare;
}
inline void deleted(Tree* t, Node* n)
{
    if (n != nullptr)
    {
        // nothing is given back while it still leads to other nodes
        holds(n->left == nullptr);
        holds(n->right == nullptr);
        gone = n;
        ++nGone;
    }
}
inline void pool(Node& n)
{
    spare = &n;
    gone     = nullptr;
    nGone    = 0;
    nRenewed = 0;
}
// what a tree pays for two boxes: any two amounts
extern float paid, price;
extern int   asked;
inline float cost(Tree* t, BoundingBox b)
{
    return asked++ == 0 ? paid : price;
}
// the node from which boxes are renewed
extern Node* renewed;
// the leaf put somewhere into the tree
extern Node* placed;
extern int   nPlaced;
inline It put(Tree* t, Node* n)
{
    placed = n;
    ++nPlaced;
    return It{n};
}
inline void renew(Tree* t, Node* n)
{
    renewed = n;
    ++nRenewed;
}
// looked at one case at a time
inline int which(int i)
{
    const int c[2] = {0, 1};
    return c[i];
}
struct Box
{
    Vec2 at, size;
};
inline BoundingBox box(const Box& b)
{
    given(b.size[0] >= 0.f);
    given(b.size[1] >= 0.f);
    return BoundingBox{b.at, b.at + b.size};
}
// a box of unit height at the ground
struct Strip
{
    float at, size;
    Box   wide() const { return Box{Vec2{at, 0.f}, Vec2{size, 1.f}}; }
};
inline bool holdsAll(const BoundingBox& b, const BoundingBox& x)
{
    return b.min()[0] <= x.min()[0] && b.min()[1] <= x.min()[1] && b.max()[0] >= x.max()[0] && b.max()[1] >= x.max()[1];
}
// overlapping in plain comparisons (that it is the same is among the laws of boxes)
inline bool meets(const BoundingBox* b, const BoundingBox& x)
{
    return b->isValid() && x.isValid() && b->min()[0] <= x.max()[0] && x.min()[0] <= b->max()[0] && b->min()[1] <= x.max()[1] && x.min()[1] <= b->max()[1];
}
inline void linked(Node* p)
{
    if (p->left != nullptr)
        holds(p->left->parent == p);
    if (p->right != nullptr)
        holds(p->right->parent == p);
}
inline void fitted(Node* p)
{
    equal(p->bounds.min(), p->left->bounds.combined(p->right->bounds).min());
    equal(p->bounds.max(), p->left->bounds.combined(p->right->bounds).max());
}
inline void join(Node& p, Node& l, Node& r)
{
    p.left   = &l;
    p.right  = &r;
    l.parent = r.parent = &p;
    p.bounds = l.bounds.combined(r.bounds);
}
struct Leaf : Node
{
    int value = 0;
    Leaf(const Box& b) : Node{box(b)} { data = &value; }
};
// ---- links
inline void law_links__children(Node& p, Node& a, Node& b)
{
    given(&a != &b);
    given(&a != &p);
    given(&b != &p);
    p.setLeft(&a);
    p.setRight(&b);
    holds(p.left == &a);
    holds(p.right == &b);
    holds(a.parent == &p);
    holds(b.parent == &p);
    holds(a.isLeft());
    holds(!a.isRight());
    holds(b.isRight());
    holds(!b.isLeft());
    holds(a.sibling() == &b);
    holds(b.sibling() == &a);
    holds(!a.isRoot());
}
inline void law_links__replaced(BoundingBox x)
{
    Node p{x}, a{x}, b{x}, c{x}, d{x};
    p.setLeft(&a);
    p.setRight(&b);
    a.replaceBy(&c);
    holds(p.left == &c);
    holds(p.right == &b);
    holds(c.parent == &p);
    b.replaceBy(&d);
    holds(p.left == &c);
    holds(p.right == &d);
    holds(d.parent == &p);
}
inline void law_links__swapped(BoundingBox x, Tree& t)
{
    Node p{x}, q{x}, a{x}, b{x}, c{x};
    p.setLeft(&a);
    p.setRight(&q);
    q.setLeft(&b);
    q.setRight(&c);
    t.swapNodes(&a, &c);
    holds(p.left == &c);
    holds(p.right == &q);
    holds(q.left == &b);
    holds(q.right == &a);
    linked(&p);
    linked(&q);
    t.swapNodes(&b, &c);
    holds(p.left == &b);
    holds(q.left == &c);
    linked(&p);
    linked(&q);
}
// ---- counting and visiting
inline void law_count__leaves(BoundingBox x, Tree& t, Box u)
{
    Leaf a{u}, b{u}, c{u};
    Node p{x}, q{x};
    holds(t.size(&a) == 1);
    join(p, a, b);
    holds(t.size(&p) == 2);
    join(q, c, p);
    holds(t.size(&q) == 3);
    t.root_ = &q;
    holds(t.size() == 3);
    holds(t.height() == 2);
    holds(!t.isEmpty());
    Node r{x};
    t.root_ = &r;
    holds(t.size() == 0);
    holds(t.isEmpty());
    holds(t.begin() == t.end());
    r.setRight(&a);
    holds(t.size() == 1);
    holds(!t.isEmpty());
    holds(t.begin().node == &a);
    holds(++t.begin() == t.end());
    r.right = nullptr;
    r.setLeft(&a);
    holds(t.size() == 1);
    holds(!t.isEmpty());
    holds(t.begin().node == &a);
    holds(++t.begin() == t.end());
}
inline void law_order__visits(Tree& t, Box u)
{
    Leaf a{u}, b{u}, c{u}, d{u};
    Node r{a.bounds}, p{a.bounds}, q{a.bounds};
    join(p, a, b);
    join(q, c, d);
    join(r, p, q);
    t.root_ = &r;
    It i = t.begin();
    holds(i.node == &a);
    holds((++i).node == &b);
    holds((i++).node == &b);
    holds(i.node == &c);
    holds((++i).node == &d);
    holds(++i == t.end());
}
inline void law_order__leaning(Tree& t, Box u)
{
    Leaf a{u}, b{u}, c{u}, d{u};
    Node r{a.bounds}, p{a.bounds}, q{a.bounds};
    join(p, a, b);
    join(q, p, c);
    join(r, d, q);
    t.root_ = &r;
    It i = t.begin();
    holds(i.node == &d);
    holds((++i).node == &a);
    holds((++i).node == &b);
    holds((++i).node == &c);
    holds(++i == t.end());
}
// ---- boxes of inner nodes hold their leaves
inline void law_refit__inner(Tree& t, Box u, Box v, BoundingBox old)
{
    Leaf a{u}, b{v};
    Node p{old};
    p.setLeft(&a);
    p.setRight(&b);
    t.refit(&p);
    holds(p.bounds == a.bounds.combined(b.bounds));
    holds(p.parent == nullptr);
    linked(&p);
}
inline void law_refit__single(Tree& t, Box u, BoundingBox old)
{
    Leaf a{u};
    Node p{old};
    p.setLeft(&a);
    t.refit(&p);
    holds(p.bounds == a.bounds);
    Node q{old};
    q.setRight(&a);
    t.refit(&q);
    holds(q.bounds == a.bounds);
    Node r{old};
    t.refit(&r);
    holds(!r.bounds.isValid());
}
// a change below is seen everywhere above
inline void still(Tree* t, Node* n)
{
}
inline BoundingBox about(int at, float size)
{
    given(size >= 0.f);
    return BoundingBox{Vec2{at - size, 0.f}, Vec2{at + size, 1.f}};
}
template <int i, int j, int k>
struct Places
{
};
template <int i, int j, int k, int l>
void up_refit__above(Tree& t, float u, Places<i, j, k>, Places<l, 0, 0>)
{
    Box  e{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}};
    Leaf a{e}, b{e}, c{e};
    a.bounds = about(i, 1.f);
    b.bounds = about(j, 1.f);
    c.bounds = about(k, 1.f);
    Node p{a.bounds}, r{a.bounds};
    join(p, a, b);
    join(r, c, p);
    t.root_ = &r;
    a.bounds = about(l, u);
    t.refit(&p);
    equal(p.bounds.min(), b.bounds.combined(a.bounds).min());
    equal(p.bounds.max(), b.bounds.combined(a.bounds).max());
    equal(r.bounds.min(), c.bounds.combined(b.bounds.combined(a.bounds)).min());
    equal(r.bounds.max(), c.bounds.combined(b.bounds.combined(a.bounds)).max());
}
inline void use_refit(Tree& t)
{
    up_refit__above(t, 0.f, Places<0, 4, 8>{}, Places<2, 0, 0>{});
    up_refit__above(t, 0.f, Places<8, 4, 0>{}, Places<2, 0, 0>{});
    up_refit__above(t, 0.f, Places<4, 8, 0>{}, Places<20, 0, 0>{});
}
// turning a part of the tree keeps its leaves, its links and its boxes
inline void law_rotation__keeps(Tree& t, Box u, Box v, Box w)
{
    Leaf a{u}, b{v}, c{w};
    Node p{a.bounds}, q{a.bounds};
    join(q, b, c);
    join(p, a, q);
    asked = 0;
    t.checkRotation(&a, &b);
    holds(p.right == &q);
    holds(q.right == &c);
    holds(p.left == &a && q.left == &b || p.left == &b && q.left == &a);
    linked(&p);
    linked(&q);
    fitted(&q);
}
// ---- adding
inline void step_added__to_leaf(Tree& t, Box u, Box v, Box w, Node& other)
{
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, n{a.bounds};
    join(r, a, b);
    pool(n);
    given(&other != &n);
    t.addLeafTo(&a, &c);
    holds(r.left == &n);
    holds(r.right == &b);
    holds(n.left == &a && n.right == &c || n.left == &c && n.right == &a);
    linked(&r);
    linked(&n);
    holds(a.left == nullptr && a.right == nullptr && c.left == nullptr && c.right == nullptr);
    fitted(&n);
    holds(nRenewed == 1);
    holds(renewed == &r || renewed == &n);
    holds(nGone == 0);
}
inline void step_added__to_right_leaf(Tree& t, Box u, Box v, Box w)
{
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, n{a.bounds};
    join(r, b, a);
    pool(n);
    t.addLeafTo(&a, &c);
    holds(r.right == &n);
    holds(r.left == &b);
    holds(n.left == &a && n.right == &c || n.left == &c && n.right == &a);
    linked(&r);
    linked(&n);
    fitted(&n);
    holds(nRenewed == 1);
    holds(renewed == &r || renewed == &n);
}
inline void step_added__to_empty(Tree& t, Box u, BoundingBox old)
{
    Leaf a{u};
    Node r{old}, n{old};
    pool(n);
    t.root_ = &r;
    t.addLeafTo(&r, &a);
    holds(r.left == &a && r.right == nullptr || r.left == nullptr && r.right == &a);
    linked(&r);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(nGone == 0);
}
inline void step_added__second(Tree& t, Box u, Box v, int side)
{
    side = which(side);
    Leaf a{u}, b{v};
    Node r{a.bounds}, n{a.bounds};
    pool(n);
    t.root_ = &r;
    if (side == 0)
        r.setLeft(&a);
    else
        r.setRight(&a);
    t.addLeafTo(&r, &b);
    holds(r.left == &a && r.right == &b || r.left == &b && r.right == &a);
    linked(&r);
    holds(nRenewed == 1);
    holds(renewed == &r);
}
inline void step_added__to_inner(Tree& t, Box u, Box v, Box w)
{
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, n{a.bounds};
    join(r, a, b);
    pool(n);
    t.root_ = &r;
    t.addLeafTo(&r, &c);
    holds(r.left == &n && r.right == &c || r.left == &c && r.right == &n);
    holds(n.left == &a && n.right == &b || n.left == &b && n.right == &a);
    linked(&r);
    linked(&n);
    fitted(&n);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(r.parent == nullptr);
}
// ---- removing
inline void step_removed__last(Tree& t, Box u, int side)
{
    side = which(side);
    Leaf a{u};
    Node r{a.bounds}, n{a.bounds};
    pool(n);
    t.root_ = &r;
    if (side == 0)
        r.setLeft(&a);
    else
        r.setRight(&a);
    t.erase(&a);
    holds(r.left == nullptr);
    holds(r.right == nullptr);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(nGone == 1);
    holds(gone == &a);
}
inline void step_removed__of_two(Tree& t, Box u, Box v, int side)
{
    side = which(side);
    Leaf a{u}, b{v};
    Node r{a.bounds}, n{a.bounds};
    join(r, a, b);
    pool(n);
    t.root_ = &r;
    Node* x = side == 0 ? (Node*)&a : &b;
    Node* y = side == 0 ? (Node*)&b : &a;
    t.erase(x);
    holds(r.left == y && r.right == nullptr || r.left == nullptr && r.right == y);
    linked(&r);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(nGone == 1);
    holds(gone == x);
}
inline void step_removed__beside_inner(Tree& t, Box u, Box v, Box w, int side)
{
    side = which(side);
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, p{a.bounds}, n{a.bounds};
    join(p, a, b);
    if (side == 0)
        join(r, c, p);
    else
        join(r, p, c);
    pool(n);
    t.root_ = &r;
    t.extract(&c);
    holds(r.left == &a && r.right == &b || r.left == &b && r.right == &a);
    linked(&r);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(nGone == 1);
    holds(gone == &p);
}
inline void step_removed__below(Tree& t, Box u, Box v, Box w, int side, int low)
{
    low = which(low);
    side = which(side);
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, p{a.bounds}, n{a.bounds};
    join(p, a, b);
    if (side == 0)
        join(r, c, p);
    else
        join(r, p, c);
    pool(n);
    t.root_ = &r;
    Node* x = low == 0 ? (Node*)&a : &b;
    Node* y = low == 0 ? (Node*)&b : &a;
    t.extract(x);
    holds(side == 0 ? r.right == y && r.left == &c : r.left == y && r.right == &c);
    linked(&r);
    holds(x->left == nullptr && x->right == nullptr);
    holds(nRenewed == 1);
    holds(renewed == &r);
    holds(nGone == 1);
    holds(gone == &p);
}
inline void step_removed__next(Tree& t, Box u, Box v, Box w)
{
    Leaf a{u}, b{v}, c{w};
    Node r{a.bounds}, p{a.bounds}, n{a.bounds};
    join(p, a, b);
    join(r, p, c);
    pool(n);
    t.root_ = &r;
    It i = t.erase(It{&a});
    holds(i.node == &b);
    holds((++i).node == &c);
    holds(++i == t.end());
}
// ---- asking
extern int seenA, seenB, seenC, seenX;
struct Seen
{
    Node *a, *b, *c;
    void operator()(It i) const
    {
        if (i.node == a)
            ++seenA;
        else if (i.node == b)
            ++seenB;
        else if (i.node == c)
            ++seenC;
        else
            ++seenX;
    }
};
inline void unseen() { seenA = seenB = seenC = seenX = 0; }
inline int  one(bool c) { return c ? 1 : 0; }
// a box around two others, as tight or loose as may be
inline void around(Node& p, Node& l, Node& r, const Box& b)
{
    p.left   = &l;
    p.right  = &r;
    l.parent = r.parent = &p;
    p.bounds = box(b);
    for (Node* n : {&l, &r})
    {
        given(p.bounds.min()[0] <= n->bounds.min()[0]);
        given(p.bounds.min()[1] <= n->bounds.min()[1]);
        given(p.bounds.max()[0] >= n->bounds.max()[0]);
        given(p.bounds.max()[1] >= n->bounds.max()[1]);
    }
}
inline void law_asked__region(Tree& t, Box u, Box v, Box w, Box x)
{
    Leaf a{u}, b{v};
    Node r{a.bounds};
    around(r, a, b, w);
    t.root_ = &r;
    unseen();
    BoundingBox q = box(x);
    t.forEachIn(q, Seen{&a, &b, nullptr});
    equal(seenA, one(q.overlaps(a.bounds)));
    equal(seenB, one(q.overlaps(b.bounds)));
    equal(seenX, 0);
}
inline void law_asked__deeper(Tree& t, Strip u, Strip v, Strip w, Strip k, Strip l, Strip x)
{
    Leaf a{u.wide()}, b{v.wide()}, c{w.wide()};
    Node p{a.bounds}, r{a.bounds};
    around(p, a, b, k.wide());
    around(r, c, p, l.wide());
    t.root_ = &r;
    unseen();
    BoundingBox q = box(x.wide());
    t.forEachIn(q, Seen{&a, &b, &c});
    equal(seenA, one(q.overlaps(a.bounds)));
    equal(seenB, one(q.overlaps(b.bounds)));
    equal(seenC, one(q.overlaps(c.bounds)));
    equal(seenX, 0);
}
inline void law_asked__point(Tree& t, Box u, Box v, Box w, Vec2 at)
{
    Leaf a{u}, b{v};
    Node r{a.bounds};
    around(r, a, b, w);
    t.root_ = &r;
    unseen();
    t.forEachAt(at, Seen{&a, &b, nullptr});
    equal(seenA, one(a.bounds.min()[0] <= at[0] && a.bounds.min()[1] <= at[1] && at[0] <= a.bounds.max()[0] && at[1] <= a.bounds.max()[1]));
    equal(seenX, 0);
}
// the other leaves a leaf meets
inline void law_asked__others(Tree& t, Strip u, Strip v, Strip w, Strip k, Strip l)
{
    Leaf a{u.wide()}, b{v.wide()}, c{w.wide()};
    Node p{a.bounds}, r{a.bounds};
    around(p, a, b, k.wide());
    around(r, c, p, l.wide());
    t.root_ = &r;
    unseen();
    t.forEachOverlapping(It{&a}, Seen{&a, &b, &c});
    equal(seenA, 0);
    equal(seenB, one(a.bounds.overlaps(b.bounds)));
    equal(seenC, one(a.bounds.overlaps(c.bounds)));
    unseen();
    t.forEachOverlapping(It{&c}, Seen{&a, &b, &c});
    equal(seenC, 0);
    equal(seenB, one(c.bounds.overlaps(b.bounds)));
    equal(seenA, one(a.bounds.overlaps(c.bounds)));
    equal(seenX, 0);
}
inline void law_asked__none(Tree& t, BoundingBox q, Box u)
{
    Node r{BoundingBox{}};
    t.root_ = &r;
    unseen();
    t.forEachIn(q, Seen{nullptr, nullptr, nullptr});
    equal(seenX, 0);
    Leaf a{u};
    Node s{a.bounds};
    s.setLeft(&a);
    t.root_ = &s;
    t.forEachIn(q, Seen{&a, nullptr, nullptr});
    equal(seenA, one(q.overlaps(a.bounds)));
    unseen();
    Node k{a.bounds};
    k.setRight(&a);
    t.root_ = &k;
    t.forEachIn(q, Seen{&a, nullptr, nullptr});
    equal(seenA, one(q.overlaps(a.bounds)));
}
// ---- renewing every box and meeting in pairs
extern int pairsAB, pairsAC, pairsBC, pairsX;
struct Met
{
    Node *a, *b, *c;
    void operator()(It i, It k) const
    {
        if (i.node == a && k.node == b || i.node == b && k.node == a)
            ++pairsAB;
        else if (i.node == a && k.node == c || i.node == c && k.node == a)
            ++pairsAC;
        else if (i.node == b && k.node == c || i.node == c && k.node == b)
            ++pairsBC;
        else
            ++pairsX;
    }
};
inline void unmet() { pairsAB = pairsAC = pairsBC = pairsX = 0; }
struct Grown
{
    Node *a, *b, *c;
    BoundingBox x, y, z;
    BoundingBox operator()(It i) const { return i.node == a ? x : i.node == b ? y : z; }
};
inline void law_moved__none(Tree& t)
{
    Node r{BoundingBox{}};
    t.root_ = &r;
    unmet();
    t.updateAndCollide(Grown{nullptr, nullptr, nullptr}, Met{nullptr, nullptr, nullptr});
    equal(pairsX, 0);
    holds(t.root_ == &r);
}
inline void put_moved__one(Tree& t, Box u, Box v)
{
    nPlaced = 0;
    Leaf a{u};
    Node r{a.bounds};
    r.setLeft(&a);
    t.root_ = &r;
    unmet();
    BoundingBox x = box(v);
    t.updateAndCollide(Grown{&a, nullptr, nullptr, x}, Met{&a, nullptr, nullptr});
    equal(pairsX, 0);
    equal(a.bounds.min(), x.min());
    equal(a.bounds.max(), x.max());
    holds(nPlaced == 1);
    holds(placed == &a);
    holds(t.root_ == &r);
    holds(r.left == nullptr && r.right == nullptr);
}
// a leaf is taken out, gets its new box and is put back
inline void put_moved__updated(Tree& t, Box u, Box v, Box w)
{
    nPlaced = 0;
    Leaf a{u}, b{v};
    Node r{a.bounds}, n{a.bounds};
    join(r, a, b);
    pool(n);
    t.root_ = &r;
    BoundingBox x = box(w);
    It i = t.update(It{&a}, x);
    holds(i.node == &a);
    equal(a.bounds.min(), x.min());
    equal(a.bounds.max(), x.max());
    holds(nPlaced == 1);
    holds(placed == &a);
    holds(r.left != &a);
    holds(r.right != &a);
    holds(nGone == 0);
    holds(a.data == &a.value);
}
inline void law_moved__two(Tree& t, Box u, Box v, Strip k, Strip l)
{
    Leaf a{u}, b{v};
    Node r{a.bounds};
    join(r, a, b);
    t.root_ = &r;
    unmet();
    BoundingBox x = box(k.wide()), y = box(l.wide());
    t.updateAndCollide(Grown{&a, &b, nullptr, x, y}, Met{&a, &b, nullptr});
    equal(pairsX, 0);
    equal(pairsAB, one(x.overlaps(y)));
    holds(t.root_ == &r);
    holds(r.left == &a && r.right == &b || r.left == &b && r.right == &a);
    linked(&r);
}
// three strips around given places, of any width
template <int i, int j, int k>
void law_moved__three(Tree& t, float u, float v, float w, Places<i, j, k>)
{
    given(u >= 0.f);
    given(v >= 0.f);
    given(w >= 0.f);
    BoundingBox x{Vec2{i - u, 0.f}, Vec2{i + u, 1.f}}, y{Vec2{j - v, 0.f}, Vec2{j + v, 1.f}}, z{Vec2{k - w, 0.f}, Vec2{k + w, 1.f}};
    Box  o{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}};
    Leaf a{o}, b{o}, c{o};
    Node p{a.bounds}, r{a.bounds};
    join(p, a, b);
    join(r, c, p);
    t.root_ = &r;
    unmet();
    nMade = nGone = 0;
    t.updateAndCollide(Grown{&a, &b, &c, x, y, z}, Met{&a, &b, &c});
    // the inner nodes are used again, none is lost
    equal(nMade, nGone);
    equal(pairsX, 0);
    equal(pairsAB, one(x.overlaps(y)));
    equal(pairsAC, one(x.overlaps(z)));
    equal(pairsBC, one(y.overlaps(z)));
}
template <int i, int j, int k, int l>
void law_moved__four(Tree& t, float u, float v, float w, float o, Places<i, j, k>, Places<l, 0, 0>)
{
    given(u >= 0.f);
    given(v >= 0.f);
    given(w >= 0.f);
    given(o >= 0.f);
    BoundingBox x{Vec2{i - u, 0.f}, Vec2{i + u, 1.f}}, y{Vec2{j - v, 0.f}, Vec2{j + v, 1.f}}, z{Vec2{k - w, 0.f}, Vec2{k + w, 1.f}}, q{Vec2{l - o, 0.f}, Vec2{l + o, 1.f}};
    Box  e{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}};
    Leaf a{e}, b{e}, c{e}, d{e};
    Node g{a.bounds}, p{a.bounds}, r{a.bounds};
    join(p, a, b);
    join(g, c, d);
    join(r, g, p);
    t.root_ = &r;
    unmet();
    t.updateAndCollide(
        [&](It n) { return n.node == &a ? x : n.node == &b ? y : n.node == &c ? z : q; },
        Met{&a, &b, &d}
    );
    equal(pairsAB, one(x.overlaps(y)));
    equal(pairsAC, one(x.overlaps(q)));
    equal(pairsBC, one(y.overlaps(q)));
}
inline void use_moved(Tree& t)
{
    law_moved__three(t, 0.f, 0.f, 0.f, Places<0, 1, 3>{});
    law_moved__three(t, 0.f, 0.f, 0.f, Places<3, 1, 0>{});
    law_moved__three(t, 0.f, 0.f, 0.f, Places<2, 0, 3>{});
    law_moved__four(t, 0.f, 0.f, 0.f, 0.f, Places<0, 1, 3>{}, Places<4, 0, 0>{});
}
// pairs of given leaves
inline void law_given__pairs(Tree& t, Strip u, Strip v, Strip w, Strip k, Strip l)
{
    Leaf a{u.wide()}, b{v.wide()}, c{w.wide()};
    Node p{a.bounds}, r{a.bounds};
    around(p, a, b, k.wide());
    around(r, c, p, l.wide());
    t.root_ = &r;
    unmet();
    It is[1] = {It{&c}};
    t.forEachOverlapping(makeView((It*)is, is + 1), Met{&a, &b, &c});
    equal(pairsAC, one(a.bounds.overlaps(c.bounds)));
    equal(pairsBC, one(b.bounds.overlaps(c.bounds)));
    equal(pairsAB, 0);
}
inline void law_given__pairs_left(Tree& t, Strip u, Strip v, Strip w, Strip k, Strip l)
{
    Leaf a{u.wide()}, b{v.wide()}, c{w.wide()};
    Node p{a.bounds}, r{a.bounds};
    around(p, a, b, k.wide());
    around(r, p, c, l.wide());
    t.root_ = &r;
    unmet();
    It is[1] = {It{&c}};
    t.forEachOverlapping(makeView((It*)is, is + 1), Met{&a, &b, &c});
    equal(pairsAC, one(a.bounds.overlaps(c.bounds)));
    equal(pairsBC, one(b.bounds.overlaps(c.bounds)));
    equal(pairsAB, 0);
}
// ---- leaves in two halves
inline void law_sorted__one(int x, int s)
{
    int  v[1] = {x};
    int* m    = booleanSort((int*)v, v + 1, [=](int* i) { return *i < s; });
    holds(v[0] == x);
    for (int i = 0; i < 1; ++i)
        holds((v[i] < s) == (i < m - v));
}
inline void law_sorted__two(int x, int y, int s)
{
    int  v[2] = {x, y};
    int* m    = booleanSort((int*)v, v + 2, [=](int* i) { return *i < s; });
    holds(v[0] == x && v[1] == y || v[0] == y && v[1] == x);
    for (int i = 0; i < 2; ++i)
        holds((v[i] < s) == (i < m - v));
}
inline void law_sorted__three(int x, int y, int z, int s)
{
    int  v[3] = {x, y, z};
    int* m    = booleanSort((int*)v, v + 3, [=](int* i) { return *i < s; });
    equal(v[0] + v[1] + v[2], x + y + z);
    equal(v[0] * v[1] * v[2], x * y * z);
    for (int i = 0; i < 3; ++i)
        holds((v[i] < s) == (i < m - v));
}
} // namespace laws
