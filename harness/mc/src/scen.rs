//! Scenario = world + operations + oracles, explored exhaustively by `Report::explore`.
use crate::explore::*;
use crate::refm::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use solana_program::instruction::Instruction;

pub enum Act {
    Tx(Vec<Instruction>),
    /// let time pass, then run the transaction (oracles see the state after the wait as `pre`)
    After(i64, Vec<Instruction>),
    /// let time pass and run a preparing transaction, then the transaction itself
    After2(i64, Vec<Instruction>, Vec<Instruction>),
    /// environment change (oracle price, clock, direct set-up edit)
    Env(Box<dyn FnOnce(&mut State)>),
    Skip,
}
pub fn tx1(i: Instruction) -> Act {
    Act::Tx(vec![i])
}

/// what an operation is, so oracles know what to expect
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Env,
    Deposit { a: usize, tok: usize, amount: u64, reduce_only: bool },
    Withdraw { a: usize, tok: usize, amount: u64, borrow: bool },
    UpdateIndex { tok: usize },
    LiqToken { liqee: usize, liqor: usize, asset: usize, liab: usize, max: f64 },
    Bankrupt { liqee: usize, liqor: usize, liab: usize, max: f64 },
    ForceClose { liqee: usize, liqor: usize, asset: usize, liab: usize, max: u64 },
    /// loans: (token, amount, tokens moved in (+) or out (-) of the wallet between begin and end)
    Flash { a: usize, loans: Vec<(usize, u64, i64)>, ty: u8, skip: Vec<usize> },
    ForceWithdraw { a: usize, tok: usize },
    TcsCreate(usize, TcsNew),
    TcsCancel { a: usize, idx: usize },
    TcsTrigger { liqee: usize, liqor: usize, idx: usize, max_buy: u64, max_sell: u64, min_buy: u64, min_price: f32 },
    TcsStart { liqee: usize, liqor: usize, idx: usize },
    /// an action by account a that has to leave it healthy
    User { a: usize },
    Perp(crate::p_perp::PK),
    Serum(crate::p_serum::SK),
    /// buybacks and fee withdrawals
    Fees(crate::p_buyback::FK),
    /// charging collateral fees
    Collateral { a: usize },
    /// first and last instruction open and close a health region of account a
    Region { a: usize },
    /// reading the health of account 0
    Health(crate::p_health::Probe),
    /// must be refused in every state
    Refuse(&'static str),
    Other(&'static str),
}

/// conditional swap as requested by its owner. ty: 0 fixed premium, 1 premium auction, 2 linear auction
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct TcsNew {
    pub ty: u8,
    pub buy: usize,
    pub sell: usize,
    pub max_buy: u64,
    pub max_sell: u64,
    /// seconds from now; None = never
    pub expiry: Option<i64>,
    pub lo: f64,
    pub hi: f64,
    pub prem: f64,
    pub dep: bool,
    pub bor: bool,
    /// linear auction: start time relative to now
    pub start: i64,
    pub dur: u64,
}

pub struct Op {
    pub name: String,
    pub k: K,
    pub f: Box<dyn Fn(&Fix, &State) -> Act + Send + Sync>,
}
/// fixture: world plus named accounts (index used by K)
#[derive(Clone)]
pub struct Fix {
    pub w: World,
    pub owners: Vec<Pubkey>,
    pub accts: Vec<Pubkey>,
}
impl Fix {
    pub fn user(&mut self, s: &mut State, name: &str, amount: u64) -> usize {
        let u = self.w.user(s, &format!("{} {name}", self.w.name), amount);
        let a = self.w.create_account(s, u, 0);
        self.owners.push(u);
        self.accts.push(a);
        self.accts.len() - 1
    }
    pub fn acc(&self, s: &State, a: usize) -> Acc {
        acc(s, &self.accts[a])
    }
}

pub struct Cx<'a> {
    pub fx: &'a Fix,
    pub op: &'a Op,
    pub pre: &'a State,
    pub post: &'a State,
    pub res: &'a TxResult,
    /// instructions of the transaction (empty for environment steps)
    pub ixs: &'a [Instruction],
    pub events: &'a [Vec<u8>],
}
impl<'a> Cx<'a> {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
}
pub type Oracle = Box<dyn Fn(&Cx) -> Result<(), String> + Send + Sync>;

pub struct Scen {
    pub name: String,
    pub fx: Fix,
    pub ops: Vec<Op>,
    pub oracles: Vec<Oracle>,
    pub want_events: bool,
}
impl Scen {
    pub fn new(name: &str, fx: Fix) -> Self {
        Scen { name: name.into(), fx, ops: vec![], oracles: vec![], want_events: false }
    }
    pub fn op(&mut self, name: impl Into<String>, k: K, f: impl Fn(&Fix, &State) -> Act + Send + Sync + 'static) {
        self.ops.push(Op { name: name.into(), k, f: Box::new(f) });
    }
    pub fn env(&mut self, name: impl Into<String>, f: impl Fn(&Fix, &mut State) + Send + Sync + Clone + 'static) {
        self.op(name, K::Env, move |fx, _| {
            let f = f.clone();
            let fx = fx.clone();
            Act::Env(Box::new(move |s| f(&fx, s)))
        });
    }
    pub fn price(&mut self, oracle: Pubkey, p: f64) {
        self.env(format!("price {} = {p}", &oracle.to_string()[..4]), move |fx, s| fx.w.set_price(s, oracle, p));
    }
    pub fn oracle(mut self, o: impl Fn(&Cx) -> Result<(), String> + Send + Sync + 'static) -> Self {
        self.oracles.push(Box::new(o));
        self
    }
    pub fn run(&self, rep: &Report, init: State, depth: usize, budget: f64) {
        if std::env::var_os("MC_REFUSE").is_some() {
            self.show_refusals(&init);
        }
        rep.explore(self, Node { s: init, g: () }, depth, budget)
    }
    /// why the must-refuse operations are refused in the initial state
    fn show_refusals(&self, init: &State) {
        for op in &self.ops {
            if !matches!(op.k, K::Env) {
                let ixs = match (op.f)(&self.fx, init) {
                    Act::Tx(v) => v,
                    _ => continue,
                };
                let mut s = init.clone();
                capture_logs(true);
                let r = s.tx(&ixs);
                let l = take_logs();
                capture_logs(false);
                let last = l.iter().rev().find(|x| x.contains("Error") || x.contains("error")).cloned().unwrap_or_default();
                println!("{} -> {r:?} {last}", op.name);
            }
        }
    }
    /// operation that every state has to refuse
    pub fn refuse(&mut self, name: &'static str, f: impl Fn(&Fix, &State) -> Act + Send + Sync + 'static) {
        self.op(name, K::Refuse(name), f);
    }
    pub fn index(&self, name: &str) -> usize {
        self.ops.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("no op {name}"))
    }
}
impl Model for Scen {
    type G = ();
    fn name(&self) -> String {
        self.name.clone()
    }
    fn ops(&self) -> Vec<String> {
        self.ops.iter().map(|o| o.name.clone()).collect()
    }
    fn step(&self, o: usize, n: &Node<()>) -> Result<Step<()>, String> {
        let op = &self.ops[o];
        let act = (op.f)(&self.fx, &n.s);
        let mut post = n.s.clone();
        if self.want_events {
            capture_events(true);
        }
        let mut base = n.s.clone();
        let (res, ixs) = match act {
            Act::After(secs, ixs) => {
                base.advance(secs);
                post.advance(secs);
                if self.want_events {
                    take_events();
                }
                (post.tx(&ixs), ixs)
            }
            Act::After2(secs, prep, ixs) => {
                base.advance(secs);
                base.tx(&prep).map_err(|e| format!("preparation failed {e:?}"))?;
                post = base.clone();
                if self.want_events {
                    take_events();
                }
                (post.tx(&ixs), ixs)
            }
            Act::Skip => return Ok(Step::Disabled),
            Act::Env(f) => {
                f(&mut post);
                (Ok(()), vec![])
            }
            Act::Tx(ixs) => {
                if self.want_events {
                    take_events();
                }
                (post.tx(&ixs), ixs)
            }
        };
        if std::env::var_os("MC_REPLAY").is_some() {
            if let Err(e) = &res {
                println!("    -> {e:?}");
            }
        }
        let events = if self.want_events { take_events() } else { vec![] };
        let cx = Cx { fx: &self.fx, op, pre: &base, post: &post, res: &res, ixs: &ixs, events: &events };
        if let (K::Refuse(why), true) = (&op.k, res.is_ok()) {
            return Err(format!("accepted although it must always be refused: {why}"));
        }
        for f in &self.oracles {
            f(&cx)?;
        }
        Ok(if res.is_ok() { Step::Next(Node { s: post, g: () }) } else { Step::Rejected })
    }
}
