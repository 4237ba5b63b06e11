//! Stand-in for tree-sitter: syntax trees, cursors over them, and a parser that asks the
//! language for a tree.

/// What a language's parser returns: nodes in an arena, the root first.
pub struct RawTree {
    pub nodes: Vec<RawNode>,
    pub has_error: bool,
}

pub struct RawNode {
    pub kind: &'static str,
    pub named: bool,
    pub start: usize,
    pub end: usize,
    pub field: Option<&'static str>,
    pub children: Vec<u32>,
}

#[derive(Clone, Copy)]
pub struct LanguageFn(pub fn(&str) -> RawTree);

#[derive(Clone, Copy)]
pub struct Language(LanguageFn);

impl From<LanguageFn> for Language {
    fn from(f: LanguageFn) -> Self {
        Language(f)
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct LanguageError {
    _private: (),
}

impl std::fmt::Display for LanguageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("incompatible language")
    }
}
impl std::error::Error for LanguageError {}

#[derive(Default)]
pub struct Parser {
    language: Option<Language>,
}

impl Parser {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_language(&mut self, language: &Language) -> Result<(), LanguageError> {
        self.language = Some(*language);
        Ok(())
    }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old_tree: Option<&Tree>) -> Option<Tree> {
        let text = std::str::from_utf8(text.as_ref()).ok()?;
        let raw = (self.language?.0.0)(text);
        let mut parents = vec![(u32::MAX, 0); raw.nodes.len()];
        for (id, node) in raw.nodes.iter().enumerate() {
            for (i, child) in node.children.iter().enumerate() {
                parents[*child as usize] = (id as u32, i as u32);
            }
        }
        let mut line_starts = vec![0];
        line_starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Some(Tree { raw, parents, line_starts })
    }
}

pub struct Tree {
    raw: RawTree,
    parents: Vec<(u32, u32)>,
    line_starts: Vec<usize>,
}

impl Tree {
    pub fn root_node(&self) -> Node<'_> {
        Node { tree: self, id: 0 }
    }
    pub fn walk(&self) -> TreeCursor<'_> {
        self.root_node().walk()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Point {
    pub row: usize,
    pub column: usize,
}

#[derive(Clone, Copy)]
pub struct Node<'tree> {
    tree: &'tree Tree,
    id: u32,
}

impl PartialEq for Node<'_> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.tree, other.tree) && self.id == other.id
    }
}
impl Eq for Node<'_> {}
impl std::fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{{Node {} {}..{}}}", self.kind(), self.start_byte(), self.end_byte())
    }
}

impl<'tree> Node<'tree> {
    fn raw(&self) -> &'tree RawNode {
        &self.tree.raw.nodes[self.id as usize]
    }
    pub fn id(&self) -> usize {
        self.id as usize
    }
    pub fn kind(&self) -> &'static str {
        self.raw().kind
    }
    pub fn is_named(&self) -> bool {
        self.raw().named
    }
    pub fn is_error(&self) -> bool {
        self.kind() == "ERROR"
    }
    pub fn is_missing(&self) -> bool {
        false
    }
    pub fn is_extra(&self) -> bool {
        self.kind() == "comment"
    }
    pub fn has_error(&self) -> bool {
        self.tree.raw.has_error
    }
    pub fn start_byte(&self) -> usize {
        self.raw().start
    }
    pub fn end_byte(&self) -> usize {
        self.raw().end
    }
    pub fn byte_range(&self) -> std::ops::Range<usize> {
        self.start_byte()..self.end_byte()
    }
    fn point(&self, offset: usize) -> Point {
        let row = self.tree.line_starts.partition_point(|start| *start <= offset) - 1;
        Point { row, column: offset - self.tree.line_starts[row] }
    }
    pub fn start_position(&self) -> Point {
        self.point(self.start_byte())
    }
    pub fn end_position(&self) -> Point {
        self.point(self.end_byte())
    }
    pub fn child_count(&self) -> usize {
        self.raw().children.len()
    }
    pub fn child(&self, i: usize) -> Option<Node<'tree>> {
        let id = *self.raw().children.get(i)?;
        Some(Node { tree: self.tree, id })
    }
    pub fn child_by_field_name(&self, name: &str) -> Option<Node<'tree>> {
        (0..self.child_count())
            .filter_map(|i| self.child(i))
            .find(|child| child.raw().field == Some(name))
    }
    pub fn parent(&self) -> Option<Node<'tree>> {
        let (id, _) = self.tree.parents[self.id as usize];
        (id != u32::MAX).then_some(Node { tree: self.tree, id })
    }
    pub fn next_sibling(&self) -> Option<Node<'tree>> {
        let (_, i) = self.tree.parents[self.id as usize];
        self.parent()?.child(i as usize + 1)
    }
    pub fn prev_sibling(&self) -> Option<Node<'tree>> {
        let (_, i) = self.tree.parents[self.id as usize];
        self.parent()?.child((i as usize).checked_sub(1)?)
    }
    pub fn utf8_text<'a>(&self, source: &'a [u8]) -> Result<&'a str, std::str::Utf8Error> {
        std::str::from_utf8(&source[self.byte_range()])
    }
    pub fn walk(&self) -> TreeCursor<'tree> {
        TreeCursor { start: *self, at: *self }
    }
}

#[derive(Clone)]
pub struct TreeCursor<'tree> {
    start: Node<'tree>,
    at: Node<'tree>,
}

impl<'tree> TreeCursor<'tree> {
    pub fn node(&self) -> Node<'tree> {
        self.at
    }
    pub fn field_name(&self) -> Option<&'static str> {
        if self.at == self.start { None } else { self.at.raw().field }
    }
    pub fn depth(&self) -> u32 {
        let mut depth = 0;
        let mut node = self.at;
        while node != self.start {
            node = node.parent().expect("the start is above");
            depth += 1;
        }
        depth
    }
    fn go(&mut self, to: Option<Node<'tree>>) -> bool {
        if let Some(node) = to {
            self.at = node;
        }
        to.is_some()
    }
    pub fn goto_first_child(&mut self) -> bool {
        let to = self.at.child(0);
        self.go(to)
    }
    pub fn goto_last_child(&mut self) -> bool {
        let to = self.at.child_count().checked_sub(1).and_then(|i| self.at.child(i));
        self.go(to)
    }
    pub fn goto_parent(&mut self) -> bool {
        let to = if self.at == self.start { None } else { self.at.parent() };
        self.go(to)
    }
    pub fn goto_next_sibling(&mut self) -> bool {
        let to = if self.at == self.start { None } else { self.at.next_sibling() };
        self.go(to)
    }
    pub fn goto_previous_sibling(&mut self) -> bool {
        let to = if self.at == self.start { None } else { self.at.prev_sibling() };
        self.go(to)
    }
}
