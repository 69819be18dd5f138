#include "vp.h"
#include <sharemind/ObjectTree.h>
using namespace sharemind;
struct Child;
struct Parent {
    using Node = ObjectTree::ParentNode<Parent, Child, std::mutex>;
    Parent(std::function<void (Child *)> f) : node(std::move(f)) {}
    Node node;
};
using CN = ObjectTree::ChildNode<Parent::Node, &Parent::node>;
struct Child { Child(Parent * p) : node(p, this) {} CN node; };
VP_ENTRY void vp_e_OT_parent_ctor(void * out, std::function<void (Child *)> & f) { new (out) Parent(std::move(f)); }
VP_ENTRY void vp_e_OT_parent_dtor(Parent & p) { p.~Parent(); }
VP_ENTRY void vp_e_OT_child_ctor(void * out, Parent * p) { new (out) Child(p); }
VP_ENTRY void vp_e_OT_child_dtor(Child & c) { c.~Child(); }
VP_ENTRY void vp_e_OT_children(Parent & p, void * out) { new (out) std::set<Child *>(p.node.children()); }
VP_ENTRY std::size_t vp_e_OT_numChildren(Parent & p) { return p.node.numChildren(); }
