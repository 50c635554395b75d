/// Drives the node arena through the interface that the HTML parser uses.
pub mod verif_dom {
    use super::*;

    /// parent, previous sibling, next sibling, first child, last child (0: none) and text
    #[derive(Clone, Debug, PartialEq)]
    pub struct NodeDump {
        pub links: [usize; 5],
        pub kind: &'static str,
        pub text: String,
    }

    pub struct Arena(Sink);

    fn id(i: usize) -> NodeId {
        NodeId(std::num::NonZeroUsize::new(i).unwrap())
    }

    impl Arena {
        pub fn new() -> Self {
            Arena(Sink {
                document: Document::new(),
                quirks_mode: QuirksMode::NoQuirks,
            })
        }

        pub fn len(&self) -> usize {
            self.0.document.nodes.len()
        }

        pub fn create_element(&mut self) -> usize {
            self.create_named("p")
        }

        pub fn create_named(&mut self, name: &str) -> usize {
            let name = QualName::new(None, ns!(html), LocalName::from(name));
            self.0
                .create_element(name, Vec::new(), ElementFlags::default())
                .0
                .get()
        }

        pub fn create_comment(&mut self) -> usize {
            self.0.create_comment(StrTendril::from("c")).0.get()
        }

        pub fn create_pi(&mut self) -> usize {
            self.0.create_pi(StrTendril::from("t"), StrTendril::from("d")).0.get()
        }

        pub fn append_node(&mut self, parent: usize, child: usize) {
            self.0.append(&id(parent), NodeOrText::AppendNode(id(child)))
        }

        pub fn append_text(&mut self, parent: usize, text: &str) {
            self.0.append(&id(parent), NodeOrText::AppendText(StrTendril::from(text)))
        }

        pub fn insert_node_before(&mut self, sibling: usize, child: usize) {
            self.0.append_before_sibling(&id(sibling), NodeOrText::AppendNode(id(child)))
        }

        pub fn insert_text_before(&mut self, sibling: usize, text: &str) {
            self.0
                .append_before_sibling(&id(sibling), NodeOrText::AppendText(StrTendril::from(text)))
        }

        pub fn foster_node(&mut self, element: usize, prev: usize, child: usize) {
            self.0
                .append_based_on_parent_node(&id(element), &id(prev), NodeOrText::AppendNode(id(child)))
        }

        pub fn foster_text(&mut self, element: usize, prev: usize, text: &str) {
            self.0.append_based_on_parent_node(
                &id(element),
                &id(prev),
                NodeOrText::AppendText(StrTendril::from(text)),
            )
        }

        pub fn append_doctype(&mut self) {
            self.0.append_doctype_to_document(
                StrTendril::from("html"),
                StrTendril::from(""),
                StrTendril::from(""),
            )
        }

        pub fn detach(&mut self, node: usize) {
            self.0.remove_from_parent(&id(node))
        }

        pub fn reparent_children(&mut self, node: usize, new_parent: usize) {
            self.0.reparent_children(&id(node), &id(new_parent))
        }

        pub fn style_elements(&self) -> Vec<usize> {
            self.0.document.style_elements.iter().map(|n| n.0.get()).collect()
        }

        /// stops after `max` steps
        pub fn nodes(&self, max: usize) -> Vec<usize> {
            self.0.document.nodes().take(max).map(|n| n.0.get()).collect()
        }

        pub fn node_and_ancestors(&self, node: usize, max: usize) -> Vec<usize> {
            self.0.document.node_and_ancestors(id(node)).take(max).map(|n| n.0.get()).collect()
        }

        pub fn node_and_following_siblings(&self, node: usize, max: usize) -> Vec<usize> {
            self.0
                .document
                .node_and_following_siblings(id(node))
                .take(max)
                .map(|n| n.0.get())
                .collect()
        }

        pub fn child_text_content(&self, node: usize) -> String {
            self.0.document.child_text_content(id(node)).into_owned()
        }

        pub fn dump(&self) -> Vec<NodeDump> {
            dump(&self.0.document)
        }
    }

    pub fn dump(document: &Document) -> Vec<NodeDump> {
        let ln = |l: Option<NodeId>| l.map_or(0, |n| n.0.get());
        document
            .nodes
            .iter()
            .map(|n| NodeDump {
                links: [
                    ln(n.parent),
                    ln(n.previous_sibling),
                    ln(n.next_sibling),
                    ln(n.first_child),
                    ln(n.last_child),
                ],
                kind: match n.data {
                    NodeData::Document => "document",
                    NodeData::Doctype { .. } => "doctype",
                    NodeData::Text { .. } => "text",
                    NodeData::Comment { .. } => "comment",
                    NodeData::Element(_) => "element",
                    NodeData::ProcessingInstruction { .. } => "pi",
                },
                text: match &n.data {
                    NodeData::Text { contents } => contents.clone(),
                    NodeData::Element(e) => e.name.local.to_string(),
                    _ => String::new(),
                },
            })
            .collect()
    }

    pub fn nodes(document: &Document, max: usize) -> Vec<usize> {
        document.nodes().take(max).map(|n| n.0.get()).collect()
    }

    /// the attributes of an element in order
    pub fn attrs(document: &Document, node: usize) -> Vec<(String, String)> {
        match document.nodes[node].as_element() {
            Some(e) => e
                .attrs
                .iter()
                .map(|a| (a.name.local.to_string(), a.value.clone()))
                .collect(),
            None => Vec::new(),
        }
    }
}
