//! A small tree of files: what the program is started on and what it leaves behind.

#[derive(Clone)]
pub struct Node { pub parent: usize, pub name: Vec<u8>, pub dir: bool, pub data: Vec<u8>, /** where a symbolic link leads, from its directory */ pub link: Option<Vec<u8>> }

/// what happens to the file-system calls of a run
#[derive(Clone, Copy, Default)]
pub struct Faults {
    /// the call with this number (from 0) fails with `errno`
    pub at: u32,
    pub errno: i32,
    pub on: bool,
    /// reads and writes transfer at most this many bytes at once (0: no limit)
    pub chunk: u32,
}

#[derive(Clone)]
pub struct World { pub nodes: Vec<Node>, pub args: Vec<Vec<u8>>, pub faults: Faults }

pub struct Outcome {
    pub status: i32,
    /// something was printed to standard error
    pub complained: bool,
    /// a call failed because of `Faults`
    pub faulted: bool,
    /// calls the program made (file-system calls only)
    pub calls: u32,
    pub nodes: Vec<Node>,
    /// what was printed
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl World {
    /// node 0 is the working directory of the program
    pub fn new() -> World { World { nodes: vec![Node { parent: 0, name: Vec::new(), dir: true, data: Vec::new(), link: None }], args: Vec::new(), faults: Faults::default() } }
    pub fn dir(&mut self, parent: usize, name: &[u8]) -> usize {
        self.nodes.push(Node { parent, name: name.to_vec(), dir: true, data: Vec::new(), link: None });
        self.nodes.len() - 1
    }
    pub fn file(&mut self, parent: usize, name: &[u8], data: &[u8]) -> usize {
        self.nodes.push(Node { parent, name: name.to_vec(), dir: false, data: data.to_vec(), link: None });
        self.nodes.len() - 1
    }
    pub fn link(&mut self, parent: usize, name: &[u8], to: &[u8]) -> usize {
        self.nodes.push(Node { parent, name: name.to_vec(), dir: false, data: Vec::new(), link: Some(to.to_vec()) });
        self.nodes.len() - 1
    }
}

/// path of node i below the working directory
pub fn path(nodes: &[Node], i: usize) -> Vec<u8> {
    if i == 0 { return Vec::new(); }
    let mut p = path(nodes, nodes[i].parent);
    if !p.is_empty() { p.push(b'/'); }
    p.extend_from_slice(&nodes[i].name);
    p
}
