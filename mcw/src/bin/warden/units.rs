//! Account types and encodings of the warden network (C26, C27).
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::*;
use elusiv_warden_network::apa::*;
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as Ix;
use elusiv_warden_network::network::*;
use elusiv_warden_network::operator::*;
use elusiv_warden_network::warden::*;
use mcw::*;
use solana_program::pubkey::Pubkey;
use svm::layout::*;
use svm::{codec, lay_val, vary, viol, hash_bytes, Check};

const P26: &[&str] = &["C26"];
const P27: &[&str] = &["C27"];
const T: usize = TOKENS.len();

fn n16() -> Vec<u16> { vec![1, 256, u16::MAX] }
fn n32() -> Vec<u32> { vec![1, 1 << 16, 0x0403_0201, u32::MAX] }
fn n64() -> Vec<u64> { vec![1, 1 << 32, 0x0807_0605_0403_0201, u64::MAX] }
fn with0<T: Default>(mut v: Vec<T>) -> Vec<T> {
    v.insert(0, T::default());
    v
}
fn keys() -> Vec<Pubkey> { vec![key("k1"), key("k2"), Pubkey::new_from_array([0xff; 32])] }
fn bools() -> Vec<bool> { vec![false, true] }
fn opt<T: Clone>(v: Vec<T>) -> Vec<ElusivOption<T>> { std::iter::once(ElusivOption::None).chain(v.into_iter().map(ElusivOption::Some)).collect() }
fn raw_text<const N: usize>(len: u64, fill: u8) -> FixedLenString<N> {
    let mut v = len.to_le_bytes().to_vec();
    v.resize(8 + N, fill);
    FixedLenString::try_from_slice(&v).unwrap()
}
fn texts<const N: usize>() -> Vec<FixedLenString<N>> {
    let full = "x".repeat(N);
    vec![text("a"), text("b"), text(&full), text(&full[1..]), raw_text(0, 7), raw_text(u64::MAX, 0xff)]
}
fn zones() -> Vec<Timezone> {
    vary!(zone(0, ""), Timezone; area: [1u8, 10, 255], location: texts())
}
fn regions() -> Vec<WardenRegion> {
    use WardenRegion::*;
    vec![Africa, America, Antarctica, Asia, Australia, Europe, Other]
}
fn tls() -> Vec<TlsMode> { vec![TlsMode::NoTls, TlsMode::Optional, TlsMode::Required] }
fn token_lists() -> Vec<[bool; T]> {
    let mut v: Vec<[bool; T]> = (0..T).map(|i| std::array::from_fn(|j| i == j)).collect();
    v.push([true; T]);
    v
}
fn features() -> Vec<WardenFeatures> {
    let mut v = vec![];
    for apa in bools() {
        for attestation in bools() {
            v.push(WardenFeatures { apa, attestation });
        }
    }
    v
}
fn basic_features() -> Vec<BasicWardenFeatures> {
    (0..8).map(|i| BasicWardenFeatures { rpc: i & 1 > 0, relay: i & 2 > 0, instant_relay: i & 4 > 0 }).collect()
}
fn base_config() -> ElusivBasicWardenConfig {
    ElusivBasicWardenConfig {
        ident: text(""), key: Pubkey::default(), operator: ElusivOption::None, addr: [0, 0, 0, 0].into(), rpc_port: 0, tls_mode: TlsMode::NoTls, uses_proxy: false, jurisdiction: 0, timezone: zone(0, ""),
        region: WardenRegion::Africa, version: [0; 3], platform: text(""), warden_features: Default::default(), basic_warden_features: Default::default(), tokens: [false; T],
    }
}
fn configs() -> Vec<ElusivBasicWardenConfig> {
    let addrs: Vec<std::net::Ipv4Addr> = vec![[1, 2, 3, 4].into(), [255, 255, 255, 255].into()];
    let zs = vec![zone(1, ""), zone(0, "x"), zone(255, "Berlin")];
    vary!(base_config(), ElusivBasicWardenConfig; ident: texts(), key: keys(), operator: opt(keys())[1..].to_vec(), addr: addrs, rpc_port: n16(), tls_mode: tls()[1..].to_vec(), uses_proxy: [true],
        jurisdiction: n16(), timezone: zs, region: regions()[1..].to_vec(), version: [[1u16, 0, 0], [0, 1, 0], [0, 0, 0xffff]], platform: texts(), warden_features: features()[1..].to_vec(),
        basic_warden_features: basic_features()[1..].to_vec(), tokens: token_lists())
}
fn base_warden() -> ElusivBasicWarden {
    ElusivBasicWarden {
        config: base_config(), lut: Pubkey::default(), asn: ElusivOption::None, is_operator_confirmed: false, is_metadata_valid: ElusivOption::None, is_active: false, join_timestamp: 0, activation_timestamp: 0,
    }
}
fn ebws() -> Vec<ElusivBasicWarden> {
    let few: Vec<ElusivBasicWardenConfig> = (1..4).map(|n| config(&key("w"), n)).collect();
    vary!(base_warden(), ElusivBasicWarden; config: few, lut: keys(), asn: opt(with0(n32()))[1..].to_vec(), is_operator_confirmed: [true], is_metadata_valid: opt(bools())[1..].to_vec(), is_active: [true],
        join_timestamp: n64(), activation_timestamp: n64())
}
fn statistics() -> Vec<WardenStatistics> {
    let z = WardenStatistics { activity: [0; 366], total: 0 };
    let mut v = vec![z.clone()];
    for day in 0..366 {
        for n in [1, 0x0403_0201, u32::MAX] {
            let mut x = z.clone();
            x.activity[day] = n;
            v.push(x);
        }
    }
    for n in n32() {
        let mut x = z.clone();
        x.total = n;
        v.push(x);
    }
    v
}
fn few_statistics() -> Vec<WardenStatistics> { statistics().into_iter().step_by(97).collect() }
fn levels() -> [fn() -> ApaLevel; 3] { [|| ApaLevel::Flag1, || ApaLevel::Flag2, || ApaLevel::Outcast] }
fn roles() -> [fn() -> ApaProponentRole; 2] { [|| ApaProponentRole::Default, || ApaProponentRole::TokenFreezingAuthority] }
fn prop_from(k: usize, x: usize) -> Option<ApaProposal> {
    let mut p = ApaProposal {
        proponent: Pubkey::default(), proponent_role: ApaProponentRole::Default, timestamp: 0, target: Pubkey::default(), level: ApaLevel::Flag1, token_constraint: ElusivOption::None, reason: text(""),
    };
    match k {
        0 => p.proponent = *keys().get(x)?,
        1 => p.proponent_role = roles().get(x)?(),
        2 => p.timestamp = *n64().get(x)?,
        3 => p.target = *keys().get(x)?,
        4 => p.level = levels().get(x + 1)?(),
        5 => p.token_constraint = *opt(with0(n16())).get(x + 1)?,
        6 => p.reason = texts().get(x)?.clone(),
        _ => {
            p = ApaProposal {
                proponent: key("p"), proponent_role: ApaProponentRole::TokenFreezingAuthority, timestamp: *n64().get(x)?, target: key("t"), level: levels().get(x % 3)?(), token_constraint: Some(x as u16).into(),
                reason: text("reason"),
            }
        }
    }
    Some(p)
}
fn prop_list() -> Vec<ApaProposal> {
    let mut v: Vec<ApaProposal> = (0..8).flat_map(|k| (0..8).filter_map(move |x| prop_from(k, x)).filter(move |p| k != 1 || p.try_to_vec().unwrap()[32] != 0)).collect();
    v.push(prop_from(1, 0).unwrap());
    v
}

macro_rules! lay {
    ($acc:ident, $fields:expr) => {
        Lay::new(stringify!($acc), <$acc as SizedAccount>::SIZE, |d| $acc::new(d).is_ok(), $fields)
    };
}
const STATS: usize = 367 * 4;
const CONFIG: usize = 264 + 32 + 33 + 4 + 2 + 1 + 1 + 2 + 23 + 1 + 6 + 264 + 2 + 3 + T;
const WARDEN: usize = CONFIG + 32 + 5 + 1 + 2 + 1 + 8 + 8;
const PROPOSAL: usize = 32 + 1 + 8 + 32 + 1 + 3 + 520;
fn lays() -> Vec<Lay> {
    let pda = || gap("pda_data", 2, 1);
    let k = || with0(keys());
    let n = || with0(n32());
    vec![
        lay!(WardensAccount, vec![pda(), lay_val!(WardensAccount, "next_warden_id", get_next_warden_id, set_next_warden_id, 4, n())]),
        lay!(BasicWardenAccount, vec![pda(), lay_val!(BasicWardenAccount, "warden", get_warden, set_warden, WARDEN, ebws())]),
        lay!(BasicWardenMapAccount, vec![pda(), lay_val!(BasicWardenMapAccount, "warden_id", get_warden_id, set_warden_id, 4, n())]),
        lay!(BasicWardenAttesterMapAccount, vec![pda(), lay_val!(BasicWardenAttesterMapAccount, "warden_id", get_warden_id, set_warden_id, 4, n())]),
        lay!(BasicWardenStatsAccount, vec![
            pda(), lay_val!(BasicWardenStatsAccount, "year", get_year, set_year, 2, with0(n16())),
            lay_val!(BasicWardenStatsAccount, "last_activity_timestamp", get_last_activity_timestamp, set_last_activity_timestamp, 8, with0(n64())),
            lay_val!(BasicWardenStatsAccount, "store", get_store, set_store, STATS, few_statistics()), lay_val!(BasicWardenStatsAccount, "send", get_send, set_send, STATS, statistics()),
            lay_val!(BasicWardenStatsAccount, "migrate", get_migrate, set_migrate, STATS, few_statistics()),
        ]),
        lay!(ApaWardenAccount, vec![
            pda(), lay_val!(ApaWardenAccount, "warden_id", get_warden_id, set_warden_id, 4, n()), lay_val!(ApaWardenAccount, "network_member_index", get_network_member_index, set_network_member_index, 4, n()),
        ]),
        lay!(WardenOperatorAccount, vec![
            pda(), lay_val!(WardenOperatorAccount, "key", get_key, set_key, 32, k()), lay_val!(WardenOperatorAccount, "ident", get_ident, set_ident, 264, texts::<256>()),
            lay_val!(WardenOperatorAccount, "url", get_url, set_url, 264, texts::<256>()), lay_val!(WardenOperatorAccount, "jurisdiction", get_jurisdiction, set_jurisdiction, 3, opt(with0(n16()))),
        ]),
        lay!(ApaProposalAccount, vec![pda(), lay_val!(ApaProposalAccount, "proposal", get_proposal, set_proposal, PROPOSAL, prop_list())]),
        lay!(ApaTargetMapAccount, vec![pda(), lay_val!(ApaTargetMapAccount, "proposal_id", get_proposal_id, set_proposal_id, 5, opt(n()))]),
        lay!(ApaProposalsAccount, vec![pda(), lay_val!(ApaProposalsAccount, "number_of_proposals", get_number_of_proposals, set_number_of_proposals, 4, n())]),
        lay!(BasicWardenNetworkAccount, vec![pda(), gap("members_count", 4, 1), gap("members", 4, 512), gap("features", 3, 512), gap("tokens", T, 512), gap("region", 1, 512)]),
        lay!(ApaWardenNetworkAccount, vec![
            pda(), gap("members_count", 4, 1), gap("apa_key", 33, 1), gap("members", 4, 6), gap("quote_starts", 558, 6), gap("quote_ends", 559, 6), gap("exchange_keys", 32, 6), gap("confirmations", 1, 6),
        ]),
    ]
}

/// the member list, through its own operations: adding the n-th member writes exactly the n-th elements
fn member_lists(c: &mut Check) {
    let mut cases = vec![];
    for count in [0u32, 1, 2, 255, 256, 510, 511, 512, 513, u32::MAX] {
        for (i, _) in regions().iter().enumerate() {
            for bg in [0u8, 1] {
                cases.push((count, i, bg, false));
                cases.push((count, i, bg, true));
            }
        }
    }
    c.grid("member-list", "member counts around 0, 256 and the capacity x regions x features x token lists x 2 backgrounds", &cases, |(count, i, bg, update), out| {
        let size = <BasicWardenNetworkAccount as SizedAccount>::SIZE;
        let mut d = vec![*bg; size];
        d[2..6].copy_from_slice(&count.to_le_bytes());
        let mut want = d.clone();
        let n = *count as usize;
        let (region, feature, tokens) = (regions()[*i], basic_features()[(*i + 1) % 8].clone(), token_lists()[*i % (T + 1)]);
        let (m, f, t, g) = (6, 6 + 4 * 512, 6 + 7 * 512, 6 + (7 + T) * 512);
        let id = 0x0403_0201u32;
        let ok;
        if *update {
            let x = n.wrapping_sub(1) % 512;
            d[m + 4 * x..m + 4 * x + 4].copy_from_slice(&id.to_le_bytes());
            want = d.clone();
            ok = codec::quiet(|| BasicWardenNetworkAccount::new(&mut d).unwrap().update_region(id, x, &region).is_ok()).unwrap_or(false);
            if (1..=512).contains(&n) {
                want[g + x] = region as u8;
                if !ok {
                    viol(out, P26, "member-list:update", format!("updating member {} of {} fails", x, n));
                }
            }
        } else {
            ok = codec::quiet(|| BasicWardenNetworkAccount::new(&mut d).unwrap().try_add_member(id, &feature, &region, &tokens).is_ok()).unwrap_or(false);
            if n < 512 {
                want[2..6].copy_from_slice(&(count + 1).to_le_bytes());
                want[m + 4 * n..m + 4 * n + 4].copy_from_slice(&id.to_le_bytes());
                want[f + 3 * n..f + 3 * n + 3].copy_from_slice(&feature.try_to_vec().unwrap());
                want[t + T * n..t + T * (n + 1)].copy_from_slice(&tokens.map(|b| b as u8));
                want[g + n] = region as u8;
            }
        }
        if ok && n <= 512 && d != want {
            let at: Vec<usize> = (0..size).filter(|x| d[*x] != want[*x]).take(5).collect();
            viol(out, &["C26", "C28"], "member-list:write", format!("{} with {} members and background {} leaves wrong bytes at {:?}", if *update { "updating" } else { "adding" }, n, bg, at));
        }
        if ok != (if *update { (1..=512).contains(&n) } else { n < 512 }) && n <= 512 {
            viol(out, &["C26", "C28"], "member-list:accept", format!("with {} members: accepted is {}", n, ok));
        }
        (1, hash_bytes(7, &d))
    });
}

fn instructions() -> Vec<Ix> {
    use Ix::*;
    let mut v = vec![Init, CompleteApaGenesisNetwork, CloseProgramAccount];
    let mut q0 = [0u8; 558];
    let quotes: Vec<[u8; 558]> = (0..6).map(|i| { q0[i * 111] = i as u8 + 1; q0 }).collect();
    let zs = || zone(3, "Berlin");
    for x in with0(n32()) {
        for b in bools() {
            v.push(UpdateBasicWardenState { warden_id: x, is_active: b });
        }
        v.push(UpdateBasicWardenLut { warden_id: x });
        v.push(ConfirmBasicWardenOperation { warden_id: x });
        v.push(RevokeMetadataAttester { warden_id: x });
        for q in &quotes {
            v.push(StartApaGenesisWardenApplication { warden_id: x, quote_start: QuoteStart(*q) });
            v.push(CompleteApaGenesisWardenApplication { warden_id: x, quote_end: QuoteEnd(*q) });
        }
        for k in keys() {
            v.push(ConfirmApaGenesisNetwork { warden_id: x, confirmation_message: k.to_bytes() });
            v.push(AddMetadataAttester { warden_id: x, attester: k });
        }
        v.push(RegisterBasicWarden { warden_id: x, config: base_config() });
        for p in prop_list() {
            v.push(ProposeApaProposal { proposal_id: x, proposal: p });
        }
        v.push(AttestBasicWardenMetadata { attester_warden_id: x, warden_id: 7, member_index: 8, asn: None, timezone: zs(), region: WardenRegion::Asia, uses_proxy: true });
        v.push(AttestBasicWardenMetadata { attester_warden_id: 6, warden_id: x, member_index: 8, asn: Some(9), timezone: zs(), region: WardenRegion::Asia, uses_proxy: true });
        v.push(AttestBasicWardenMetadata { attester_warden_id: 5, warden_id: 7, member_index: x, asn: None, timezone: zs(), region: WardenRegion::Asia, uses_proxy: true });
        v.push(AttestBasicWardenMetadata { attester_warden_id: 4, warden_id: 7, member_index: 8, asn: Some(x), timezone: zs(), region: WardenRegion::Asia, uses_proxy: false });
    }
    for region in regions() {
        for timezone in zones() {
            v.push(AttestBasicWardenMetadata { attester_warden_id: 3, warden_id: 7, member_index: 8, asn: None, timezone, region, uses_proxy: false });
        }
    }
    for c in configs().into_iter().skip(1) {
        v.push(RegisterBasicWarden { warden_id: 0, config: c });
    }
    for y in with0(n16()) {
        v.push(OpenBasicWardenStatsAccount { year: y });
        for b in bools() {
            v.push(TrackBasicWardenStats { year: y, can_fail: b });
        }
        v.push(RegisterWardenOperator { ident: text("i"), url: text("u"), jurisdiction: Some(y) });
    }
    for t in texts() {
        v.push(RegisterWardenOperator { ident: t.clone(), url: text("z"), jurisdiction: None });
        v.push(RegisterWardenOperator { ident: text("z"), url: t, jurisdiction: None });
    }
    v
}

pub fn run_all(c: &mut Check) {
    if c.wants("warden-fields", P26) {
        svm::layout::run(c, "warden-fields", &lays(), P26);
    }
    if c.wants("member-list", &["C26", "C28"]) {
        member_lists(c);
    }
    if c.wants("warden-codec", P27) {
        let list = vec![
            codec!("FixedLenString<14>", FixedLenString<14>, true, 22, texts()),
            codec!("Identifier", Identifier, true, 264, texts()),
            codec!("ApaReason", ApaReason, true, 520, texts()),
            codec!("WardenFeatures", WardenFeatures, true, 2, features()),
            codec!("BasicWardenFeatures", BasicWardenFeatures, true, 3, basic_features()),
            codec!("TlsMode", TlsMode, true, 1, tls()),
            codec!("Timezone", Timezone, true, 23, zones()),
            codec!("WardenRegion", WardenRegion, true, 1, regions()),
            codec!("ElusivBasicWardenConfig", ElusivBasicWardenConfig, true, CONFIG, configs()),
            codec!("ElusivBasicWarden", ElusivBasicWarden, true, WARDEN, ebws()),
            codec!("WardenStatistics", WardenStatistics, true, STATS, statistics()),
            codec!("QuoteStart", QuoteStart, true, 558, (0..558).map(|i| { let mut q = [0; 558]; q[i] = 1; QuoteStart(q) }).collect()),
            codec!("QuoteEnd", QuoteEnd, true, 558, (0..558).map(|i| { let mut q = [0; 558]; q[i] = 255; QuoteEnd(q) }).collect()),
            codec!("ApaLevel", ApaLevel, true, 1, levels().iter().map(|f| f()).collect()),
            codec!("ApaProponentRole", ApaProponentRole, true, 1, roles().iter().map(|f| f()).collect()),
            codec!("ApaProposal", ApaProposal, true, PROPOSAL, prop_list()),
            codec!("Ipv4Addr", std::net::Ipv4Addr, true, 4, (0..256u32).flat_map(|i| [i, i << 8, i << 16, i << 24]).filter(|i| *i != 0).map(std::net::Ipv4Addr::from).collect()),
            codec!("[bool; TOKENS]", [bool; T], true, T, token_lists()),
            codec!("Option<QuoteEnd>", ElusivOption<QuoteEnd>, true, 559, opt(vec![QuoteEnd([0; 558]), QuoteEnd([9; 558])])),
            codec!("Option<bool>", ElusivOption<bool>, true, 2, opt(bools())),
        ];
        svm::codec::run(c, "warden-codec", &list, P27);
    }
    if c.wants("warden-instruction-codec", P27) {
        let v: Vec<Vec<u8>> = instructions().iter().map(|i| i.try_to_vec().unwrap()).collect();
        let max = v.iter().map(|x| x.len()).max().unwrap();
        let x = svm::codec::Codec {
            name: "ElusivWardenNetworkInstruction", size: max, fixed: false, expected: max, vals: v,
            dec: Box::new(|b| {
                let mut s = b;
                let i = Ix::deserialize(&mut s).ok()?;
                Some((i.try_to_vec().ok()?, b.len() - s.len()))
            }),
        };
        svm::codec::tags(c, "warden-instruction-tags", &x, 17, P27);
        svm::codec::run(c, "warden-instruction-codec", &[x], P27);
    }
}
