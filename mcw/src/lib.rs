//! Addresses, instruction builders and readers for the warden network program.
use borsh::{BorshDeserialize, BorshSerialize};
pub use elusiv_types::{ElusivOption, ProgramAccount, TOKENS};
pub use elusiv_warden_network::apa::*;
pub use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as Ix;
pub use elusiv_warden_network::operator::*;
pub use elusiv_warden_network::warden::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::collections::HashMap;
use std::sync::{OnceLock, RwLock};
pub use svm::*;

pub const SOL: u64 = 1_000_000_000;

pub fn pid() -> Pubkey { elusiv_warden_network::id() }
/// the main program (as published for the configuration the crates are built with)
pub fn main_program() -> Pubkey { "HMr2Y6Gkjvy42y1iAPEbRKz5o7WEFPHBvagHQYR581UB".parse().unwrap() }
pub fn other_program() -> Pubkey { key("other-program") }
pub fn key(name: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(name.as_bytes()).to_bytes())
}

type PdaKey = (&'static str, Option<Pubkey>, Option<u32>);
pub fn pda_of(seed: &'static str, pk: Option<Pubkey>, off: Option<u32>) -> Pubkey {
    static C: OnceLock<RwLock<HashMap<PdaKey, Pubkey>>> = OnceLock::new();
    let c = C.get_or_init(|| RwLock::new(HashMap::new()));
    if let Some(v) = c.read().unwrap().get(&(seed, pk, off)) {
        return *v;
    }
    let o = off.map(|o| o.to_le_bytes());
    let mut s: Vec<&[u8]> = vec![seed.as_bytes()];
    if let Some(p) = &pk {
        s.push(p.as_ref());
    }
    if let Some(o) = &o {
        s.push(&o[..]);
    }
    let v = Pubkey::find_program_address(&s, &pid()).0;
    c.write().unwrap().insert((seed, pk, off), v);
    v
}
pub fn wardens() -> Pubkey { pda_of("Wardens", None, None) }
pub fn basic_network() -> Pubkey { pda_of("BasicWardenNetwork", None, None) }
pub fn apa_network() -> Pubkey { pda_of("ApaWardenNetwork", None, None) }
pub fn proposals() -> Pubkey { pda_of("ApaProposals", None, None) }
pub fn warden_acc(id: u32) -> Pubkey { pda_of("BasicWarden", None, Some(id)) }
pub fn map_acc(k: &Pubkey) -> Pubkey { pda_of("BasicWardenMap", Some(*k), None) }
pub fn apa_warden(id: u32) -> Pubkey { pda_of("ApaWarden", None, Some(id)) }
pub fn operator_acc(k: &Pubkey) -> Pubkey { pda_of("WardenOperator", Some(*k), None) }
pub fn stats_acc(k: &Pubkey, year: u16) -> Pubkey { pda_of("BasicWardenStats", Some(*k), Some(year as u32)) }
pub fn proposal_acc(i: u32) -> Pubkey { pda_of("ApaProposal", None, Some(i)) }
pub fn target_acc(k: &Pubkey) -> Pubkey { pda_of("ApaTargetMap", Some(*k), None) }
pub fn attester_acc(k: &Pubkey) -> Pubkey { pda_of("BasicWardenAttesterMap", Some(*k), None) }

pub fn w(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
pub fn r(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
pub fn s(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }
pub fn ws(k: Pubkey) -> AccountMeta { AccountMeta::new(k, true) }
pub fn ix(i: Ix, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: pid(), accounts, data: i.try_to_vec().unwrap() }
}
fn sys() -> AccountMeta { r(system_program::id()) }

pub fn init(payer: &Pubkey) -> Instruction {
    ix(Ix::Init, vec![ws(*payer), w(wardens()), w(basic_network()), w(apa_network()), w(proposals()), sys()])
}
/// `map`: key whose map account is passed
pub fn register(signer: &Pubkey, map: &Pubkey, warden_id: u32, config: ElusivBasicWardenConfig) -> Instruction {
    ix(Ix::RegisterBasicWarden { warden_id, config }, vec![ws(*signer), w(warden_acc(warden_id)), w(map_acc(map)), w(wardens()), w(basic_network()), sys()])
}
pub fn update_state(signer: &Pubkey, warden_id: u32, is_active: bool) -> Instruction {
    ix(Ix::UpdateBasicWardenState { warden_id, is_active }, vec![s(*signer), w(warden_acc(warden_id))])
}
pub fn update_lut(signer: &Pubkey, warden_id: u32, lut: &Pubkey) -> Instruction {
    ix(Ix::UpdateBasicWardenLut { warden_id }, vec![s(*signer), w(warden_acc(warden_id)), r(*lut)])
}
pub fn apa_start(signer: &Pubkey, warden_id: u32, quote: &[u8; 558]) -> Instruction {
    ix(Ix::StartApaGenesisWardenApplication { warden_id, quote_start: QuoteStart(*quote) }, vec![ws(*signer), r(map_acc(signer)), w(apa_warden(warden_id)), w(apa_network()), sys()])
}
pub fn apa_complete(signer: &Pubkey, warden_id: u32, quote: &[u8; 558]) -> Instruction {
    ix(Ix::CompleteApaGenesisWardenApplication { warden_id, quote_end: QuoteEnd(*quote) }, vec![s(*signer), r(map_acc(signer)), w(apa_network())])
}
pub fn apa_confirm(signer: &Pubkey, warden_id: u32, msg: [u8; 32]) -> Instruction {
    ix(Ix::ConfirmApaGenesisNetwork { warden_id, confirmation_message: msg }, vec![s(*signer), r(apa_warden(warden_id)), w(apa_network())])
}
pub fn register_operator(op: &Pubkey, ident: Identifier, url: Identifier, jurisdiction: Option<u16>) -> Instruction {
    ix(Ix::RegisterWardenOperator { ident, url, jurisdiction }, vec![ws(*op), w(operator_acc(op)), sys()])
}
pub fn confirm_operation(op: &Pubkey, warden_id: u32) -> Instruction {
    ix(Ix::ConfirmBasicWardenOperation { warden_id }, vec![s(*op), w(warden_acc(warden_id))])
}
pub fn open_stats(warden: &Pubkey, payer: &Pubkey, year: u16) -> Instruction {
    ix(Ix::OpenBasicWardenStatsAccount { year }, vec![r(*warden), ws(*payer), w(stats_acc(warden, year)), sys()])
}
pub fn track(warden: &Pubkey, year: u16, can_fail: bool) -> Instruction {
    ix(Ix::TrackBasicWardenStats { year, can_fail }, vec![r(*warden), w(stats_acc(warden, year)), r(sysvar::instructions::id())])
}
pub fn propose(proponent: &Pubkey, proposal_id: u32, mint: &Pubkey, proposal: ApaProposal) -> Instruction {
    let t = target_acc(&proposal.target);
    ix(Ix::ProposeApaProposal { proposal_id, proposal }, vec![ws(*proponent), w(proposal_acc(proposal_id)), w(proposals()), w(t), r(*mint), sys()])
}
pub fn add_attester(signer: &Pubkey, warden_id: u32, attester: &Pubkey) -> Instruction {
    ix(Ix::AddMetadataAttester { warden_id, attester: *attester }, vec![ws(*signer), w(attester_acc(attester)), w(warden_acc(warden_id)), sys()])
}
pub fn revoke_attester(signer: &Pubkey, warden_id: u32, attester: &Pubkey) -> Instruction {
    ix(Ix::RevokeMetadataAttester { warden_id }, vec![ws(*signer), r(*attester), w(attester_acc(attester)), w(warden_acc(warden_id)), sys()])
}
#[derive(Clone)]
pub struct Attest {
    pub by: u32,
    pub id: u32,
    pub member: u32,
    pub asn: Option<u32>,
    pub timezone: Timezone,
    pub region: WardenRegion,
    pub proxy: bool,
}
pub fn attest(signer: &Pubkey, a: &Attest) -> Instruction {
    ix(
        Ix::AttestBasicWardenMetadata {
            attester_warden_id: a.by, warden_id: a.id, member_index: a.member, asn: a.asn, timezone: a.timezone.clone(), region: a.region, uses_proxy: a.proxy,
        },
        vec![s(*signer), r(warden_acc(a.by)), w(warden_acc(a.id)), w(basic_network())],
    )
}
pub fn close_account(signer: &Pubkey, to: &Pubkey, acc: &Pubkey) -> Instruction {
    ix(Ix::CloseProgramAccount, vec![s(*signer), w(*to), w(*acc), sys()])
}

pub fn text<const N: usize>(s: &str) -> FixedLenString<N> {
    let mut v = (s.len() as u64).to_le_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v.resize(8 + N, 0);
    FixedLenString::try_from_slice(&v).unwrap()
}
pub fn zone(area: u8, loc: &str) -> Timezone { Timezone { area, location: text(loc) } }
/// a configuration in which every field differs from every other `n`
pub fn config(k: &Pubkey, n: u16) -> ElusivBasicWardenConfig {
    let regions = [WardenRegion::Europe, WardenRegion::America, WardenRegion::Other, WardenRegion::Asia];
    let mut tokens = [false; TOKENS.len()];
    for (i, t) in tokens.iter_mut().enumerate() {
        *t = (n as usize + i) % 2 == 1;
    }
    ElusivBasicWardenConfig {
        ident: text(&format!("warden {}", n)),
        key: *k,
        operator: None.into(),
        addr: std::net::Ipv4Addr::new(10, 0, n as u8, 1),
        rpc_port: 8000 + n,
        tls_mode: if n % 2 == 0 { TlsMode::Optional } else { TlsMode::Required },
        uses_proxy: n % 2 == 1,
        jurisdiction: 40 + n,
        timezone: zone(n as u8, "Berlin"),
        region: regions[n as usize % 4],
        version: [n, 1, 2],
        platform: text(&format!("linux {}", n)),
        warden_features: WardenFeatures { apa: n % 2 == 1, attestation: false },
        basic_warden_features: BasicWardenFeatures { rpc: n % 2 == 0, relay: n % 3 == 0, instant_relay: true },
        tokens,
    }
}

// ---- readers ----
pub fn u32_at(b: &Bank, k: &Pubkey, o: usize) -> u32 {
    u32::from_le_bytes(b.get(k).unwrap().data.slice(o, 4).try_into().unwrap())
}
pub fn next_id(b: &Bank) -> u32 { u32_at(b, &wardens(), 2) }
pub fn set_next_id(b: &mut Bank, v: u32) { b.write(&wardens(), 2, &v.to_le_bytes()); }
pub fn warden_of(b: &Bank, id: u32) -> Option<ElusivBasicWarden> {
    b.get(&warden_acc(id)).filter(|a| a.owner == pid())?;
    let mut d = b.data(&warden_acc(id));
    Some(BasicWardenAccount::new(&mut d).ok()?.get_warden())
}
pub fn put_warden(b: &mut Bank, id: u32, v: &ElusivBasicWarden) {
    let mut d = b.data(&warden_acc(id));
    BasicWardenAccount::new(&mut d).unwrap().set_warden(v);
    b.write(&warden_acc(id), 0, &d);
}
pub fn ser(v: &ElusivBasicWarden) -> Vec<u8> { v.try_to_vec().unwrap() }
pub fn mapped(b: &Bank, k: &Pubkey) -> Option<u32> {
    b.get(&map_acc(k)).filter(|a| a.owner == pid())?;
    Some(u32_at(b, &map_acc(k), 2))
}
/// (id, features, tokens, region) of the members as recorded in the network account; fixed arrays behind the count
pub struct Net {
    pub count: u32,
    pub members: Vec<(u32, Vec<u8>, Vec<u8>, u8)>,
}
pub const MAX_MEMBERS: usize = 512;
pub const NET_COUNT: usize = 2;
pub fn net(b: &Bank) -> Net {
    let d = b.data(&basic_network());
    let n = MAX_MEMBERS;
    let (m, f, t) = (6, 6 + 4 * n, 6 + 7 * n);
    let g = t + TOKENS.len() * n;
    assert_eq!(d.len(), g + n, "layout of the network account");
    let count = u32_at(b, &basic_network(), NET_COUNT);
    let members = (0..(count as usize).min(n))
        .map(|i| {
            (
                u32::from_le_bytes(d[m + 4 * i..m + 4 * i + 4].try_into().unwrap()),
                d[f + 3 * i..f + 3 * i + 3].to_vec(),
                d[t + TOKENS.len() * i..t + TOKENS.len() * (i + 1)].to_vec(),
                d[g + i],
            )
        })
        .collect();
    Net { count, members }
}

pub fn fund(b: &mut Bank, k: &Pubkey, l: u64) { b.put(*k, l, system_program::id(), &[]); }
pub fn token_mint(b: &mut Bank, k: &Pubkey, freeze: Option<Pubkey>) {
    let m = spl_token::state::Mint { mint_authority: COption::None, supply: 1, decimals: 6, is_initialized: true, freeze_authority: freeze.map_or(COption::None, COption::Some) };
    let mut d = vec![0; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut d);
    b.put(*k, SOL, spl_token::id(), &d);
}
fn noop(_: &Pubkey, _: &[solana_program::account_info::AccountInfo], _: &[u8]) -> solana_program::entrypoint::ProgramResult { Ok(()) }
/// programs, funded actors, initialised program
pub fn setup() {
    svm::init();
    // the member list is larger than what the chain lets a program create (see DESIGN.md)
    svm::CPI_SPACE.store(64 * 1024, std::sync::atomic::Ordering::Relaxed);
    register_program(pid(), elusiv_warden_network::process_instruction);
    register_program(main_program(), noop);
    register_program(other_program(), noop);
}
pub fn genesis(actors: &[Pubkey], now: i64) -> Bank {
    let mut b = Bank::default();
    b.unix_timestamp = now;
    for a in actors {
        fund(&mut b, a, 1000 * SOL);
    }
    execute(&b, &[init(&actors[0])]).expect("init")
}
