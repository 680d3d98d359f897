//! Calendar (C34): every second of the supported century and the boundaries around it.
use elusiv_warden_network::processor::unix_timestamp_to_day_and_year;
use mcw::*;

fn leap(y: u64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }

pub fn run_all(c: &mut Check) {
    if !c.wants("calendar", &["C34"]) {
        return;
    }
    // (first second, year, number of days)
    let mut years = vec![];
    let mut t = 0u64;
    for y in 1970..2110u64 {
        let d = 365 + leap(y) as u64;
        years.push((t, y, d));
        t += d * 86_400;
    }
    let thorough = c.thorough;
    c.grid("calendar", "every second of the years 2000-2099 (quick: every hour, and every second of the first and last hour of each day); all of 1970-1999 and 2100-2109 hourly must be refused; extreme values", &years, move |(t0, y, days), out| {
        let mut n = 0;
        for d in 0..*days {
            let day = t0 + d * 86_400;
            let mut probe = |s: u64| {
                n += 1;
                let got = unix_timestamp_to_day_and_year(day + s);
                let want = if (2000..2100).contains(y) { Some((d as u32 + 1, *y as u16)) } else { None };
                if got != want {
                    viol(out, &["C34", "C30"], "calendar", format!("timestamp {} is {:?} instead of {:?}", day + s, got, want));
                }
            };
            if *y >= 2000 && *y < 2100 {
                if thorough {
                    (0..86_400).for_each(&mut probe);
                } else {
                    (0..86_400).step_by(3600).for_each(&mut probe);
                    (0..3600).for_each(&mut probe);
                    (82_800..86_400).for_each(&mut probe);
                }
            } else {
                (0..86_400).step_by(3600).for_each(&mut probe);
                probe(86_399);
            }
        }
        if *y == 2109 {
            for s in [t0 + 365 * 86_400, u32::MAX as u64, 1 << 32, 1 << 33, 1 << 40, i64::MAX as u64, u64::MAX / 2, u64::MAX - 1, u64::MAX] {
                n += 1;
                if s >= 4_102_444_800 && unix_timestamp_to_day_and_year(s).is_some() {
                    viol(out, &["C34"], "calendar-range", format!("timestamp {} accepted", s));
                }
            }
        }
        (n, *y as u128)
    });
}
