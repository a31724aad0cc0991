//! Order book side. The byte layout is private to the DEX; this stand-in uses a flat array.
#[repr(transparent)]
pub struct Slab([u8]);

#[derive(Clone, Copy, Debug)]
#[repr(C, packed)]
pub struct LeafNode {
    pub key: u128,
    pub quantity: u64, // in coin lots
    pub owner: [u64; 4],
    pub owner_slot: u64,
    pub client_order_id: u64,
}
unsafe impl bytemuck::Zeroable for LeafNode {}
unsafe impl bytemuck::Pod for LeafNode {}
impl LeafNode {
    pub fn key(&self) -> u128 {
        self.key
    }
    pub fn price(&self) -> u64 {
        (self.key >> 64) as u64
    }
}
pub type NodeHandle = u32;
const LEAF: usize = std::mem::size_of::<LeafNode>();

impl Slab {
    pub fn new(bytes: &mut [u8]) -> &mut Self {
        unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
    }
    pub fn len(&self) -> usize {
        u64::from_le_bytes(self.0[..8].try_into().unwrap()) as usize
    }
    fn set_len(&mut self, n: usize) {
        self.0[..8].copy_from_slice(&(n as u64).to_le_bytes());
    }
    pub fn capacity(&self) -> usize {
        (self.0.len() - 8) / LEAF
    }
    pub fn get(&self, i: usize) -> LeafNode {
        bytemuck::pod_read_unaligned(&self.0[8 + i * LEAF..8 + (i + 1) * LEAF])
    }
    pub fn set(&mut self, i: usize, n: &LeafNode) {
        self.0[8 + i * LEAF..8 + (i + 1) * LEAF].copy_from_slice(bytemuck::bytes_of(n));
    }
    pub fn find_by_key(&self, key: u128) -> Option<NodeHandle> {
        (0..self.len()).find(|i| self.get(*i).key() == key).map(|i| i as u32)
    }
    pub fn iter(&self) -> Vec<LeafNode> {
        (0..self.len()).map(|i| self.get(i)).collect()
    }
    pub fn insert(&mut self, n: &LeafNode) -> bool {
        let l = self.len();
        if l >= self.capacity() {
            return false;
        }
        // keep sorted by key for canonical state
        let pos = (0..l).find(|i| self.get(*i).key() > n.key()).unwrap_or(l);
        for i in (pos..l).rev() {
            let x = self.get(i);
            self.set(i + 1, &x);
        }
        self.set(pos, n);
        self.set_len(l + 1);
        true
    }
    pub fn remove_by_key(&mut self, key: u128) -> Option<LeafNode> {
        let pos = self.find_by_key(key)? as usize;
        let l = self.len();
        let out = self.get(pos);
        for i in pos..l - 1 {
            let x = self.get(i + 1);
            self.set(i, &x);
        }
        self.set(l - 1, &bytemuck::Zeroable::zeroed());
        self.set_len(l - 1);
        Some(out)
    }
}
