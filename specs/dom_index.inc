impl vstd::std_specs::core::IndexSpecImpl<NodeId> for Document {
    open spec fn index_req(&self, id: &NodeId) -> bool { id.ix() < self.nodes.len() }
}
impl std::ops::Index<NodeId> for Document {
    type Output = Node;
//@@ fn victor/src/dom/mod.rs | impl std::ops::Index<NodeId> for Document :: index
//@@ ret r
//@@ spec
    ensures *r == self.nodes@[id.ix()]
//@@ end
}
impl std::ops::IndexMut<NodeId> for Document {
//@@ fn victor/src/dom/mod.rs | impl std::ops::IndexMut<NodeId> for Document :: index_mut
//@@ ret r
//@@ spec
    ensures
        *r == old(self).nodes@[id.ix()],
        final(self).nodes@ == old(self).nodes@.update(id.ix(), *final(r)),
        final(self).style_elements == old(self).style_elements,
//@@ end
}
