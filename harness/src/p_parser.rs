//! C01..C11 and C24: the file level of the library.
use crate::gen::*;
use crate::util::*;
use crate::{ensure, same};
use swrs::parser::file::*;
use swrs::parser::library::*;
use swrs::parser::logic::*;
use swrs::parser::project::Project;
use swrs::parser::resource::*;
use swrs::parser::view::models::*;
use swrs::parser::view::{Layout, View};
use swrs::parser::*;
use swrs::color::Color;

pub fn props() -> Vec<(&'static str, fn(&mut Ctx), fn(&mut Ctx), &'static str)> {
    vec![
        ("C01", c01_fixed, c01, "byte strings of every length 0..=64 and random ones up to 4096 bytes, compared with an independent AES-128-CBC/PKCS#7; corrupted and truncated ciphertexts; file helpers on scratch files. Distinct = distinct (case, input)."),
        ("C02", c02_fixed, c02, "six-tuples of texts encrypted by the reference cipher; then one slot at a time replaced by garbage or by encrypted non-UTF-8."),
        ("C03", c03_fixed, c03, "all option masks, enum values and out-of-range numbers 0..300, u16 sweep, boundary and random colours and sizes, against literal expected text."),
        ("C04", c04_fixed, c04, "random metadata with boundary timestamps; expected date text from an independent civil-calendar computation; malformed dates."),
        ("C05", none, c05, "random screen lists (empty sections included), written and re-read; canonical texts built independently."),
        ("C06", c06_fixed, c06, "random library entries; all 24 section orders; each section removed, truncated or malformed."),
        ("C07", none, c07, "random resource lists with any sections empty, written and re-read; canonical texts."),
        ("C08", c08_fixed, c08, "random sets of layouts (empty ones included) and FABs with random attributes, written and re-read."),
        ("C09", none, c09, "random screens with any subset of pools and containers (empty ones included), written and re-read, compared per screen."),
        ("C10", none, c10, "random whole projects converted to raw texts and back; each slot replaced by an unparsable text."),
        ("C11", c11_fixed, c11, "mutations of valid texts and random texts fed to every reader; non-trivial = every distinct text."),
        ("C24", c24_fixed, c24, "random resource file lists with real scratch files, imaginary files and unusable paths, against an independent sorting."),
    ]
}
fn none(_: &mut Ctx) {}
fn d<T: std::fmt::Debug>(x: &T) -> String { format!("{:?}", x) }
fn e<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|x| format!("{} failed: {:?}", what, x)) }

// ---------------------------------------------------------------- C01
mod refcrypto {
    use aes::Aes128;
    use block_modes::block_padding::Pkcs7;
    use block_modes::{BlockMode, Cbc};
    type C = Cbc<Aes128, Pkcs7>;
    const K: [u8; 16] = [0x73, 0x6b, 0x65, 0x74, 0x63, 0x68, 0x77, 0x61, 0x72, 0x65, 0x73, 0x65, 0x63, 0x75, 0x72, 0x65];
    pub fn enc(b: &[u8]) -> Vec<u8> { C::new_from_slices(&K, &K).unwrap().encrypt_vec(b) }
    pub fn dec(b: &[u8]) -> Option<Vec<u8>> { C::new_from_slices(&K, &K).unwrap().decrypt_vec(b).ok() }
}
fn c01_bytes(c: &mut Ctx, data: Vec<u8>) {
    let desc = d(&data);
    let dir = c.scratch.clone();
    c.case("encrypt", &desc, || {
        let ct = swrs::encrypt_sw(&data);
        same!("ciphertext", ct, refcrypto::enc(&data));
        same!("decrypted", e("decrypt", swrs::decrypt_sw_encrypted(&ct))?, data);
        Ok(())
    });
    c.case("files", &desc, || {
        let (p, q, r) = (dir.join("plain"), dir.join("out"), dir.join("same"));
        std::fs::write(&p, &data).unwrap();
        std::fs::write(&r, &data).unwrap();
        std::fs::write(&q, b"something else that was there before, and is longer than the output, surely, for short inputs").unwrap();
        let ct = refcrypto::enc(&data);
        same!("encrypt_sw_file", e("encrypt_sw_file", swrs::encrypt_sw_file(&p))?, ct);
        e("encrypt_sw_file_to_file", swrs::encrypt_sw_file_to_file(&p, Some(&q)))?;
        same!("output file", std::fs::read(&q).unwrap(), ct);
        same!("input file", std::fs::read(&p).unwrap(), data);
        same!("decrypt_sw_file", e("decrypt_sw_file", swrs::decrypt_sw_file(&q))?, data);
        e("in place", swrs::encrypt_sw_file_to_file(&r, None))?;
        same!("in place", std::fs::read(&r).unwrap(), ct);
        Ok(())
    });
}
fn c01_nonct(c: &mut Ctx, data: Vec<u8>) {
    let desc = d(&data);
    c.case("decrypt arbitrary bytes", &desc, || {
        match (swrs::decrypt_sw_encrypted(&data), refcrypto::dec(&data)) {
            (Ok(a), Some(b)) => { same!("plaintext", a, b); Ok(()) }
            (Err(_), None) => Ok(()),
            (Ok(a), None) => Err(format!("not a ciphertext, but decrypted to {:?}", a)),
            (Err(x), Some(_)) => Err(format!("a ciphertext, but failed with {:?}", x)),
        }
    });
}
fn c01_fixed(c: &mut Ctx) {
    for n in 0..=64usize { c01_bytes(c, (0..n).map(|i| (i * 7 + 13) as u8).collect()); }
    for n in 0..=48usize { c01_nonct(c, vec![0x55; n]); }
    for pad in 0..=255u8 { // every last byte of a padding block
        let mut b = refcrypto::enc(&[pad; 16]);
        b.truncate(16);
        c01_nonct(c, b);
    }
    let p = c.scratch.join("missing");
    c.case("missing file", "a path that does not exist", || {
        ensure!(swrs::decrypt_sw_file(&p).is_err(), "decrypt_sw_file succeeded");
        ensure!(swrs::encrypt_sw_file(&p).is_err(), "encrypt_sw_file succeeded");
        ensure!(swrs::encrypt_sw_file_to_file(&p, None).is_err(), "encrypt_sw_file_to_file succeeded");
        Ok(())
    });
}
fn c01(c: &mut Ctx) {
    let n = match c.rng.below(4) { 0 => c.rng.below(4096), 1 => 16 * c.rng.below(40), _ => c.rng.below(200) };
    let data: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
    c01_bytes(c, data.clone());
    let mut ct = refcrypto::enc(&data);
    match c.rng.below(3) {
        0 => { let k = c.rng.below(ct.len() + 1); ct.truncate(k) }
        1 => { let k = c.rng.below(ct.len()); ct[k] ^= 1 << c.rng.below(8) }
        _ => { let k = ct.len() - 1 - c.rng.below(16); ct[k] = c.rng.next() as u8 }
    }
    c01_nonct(c, ct);
}

// ---------------------------------------------------------------- C02
fn c02_open(c: &mut Ctx, t: [String; 6], files: Vec<ResourceFileWrapper>) {
    let desc = format!("{:?} {:?}", t, files);
    let enc: Vec<Vec<u8>> = t.iter().map(|s| refcrypto::enc(s.as_bytes())).collect();
    let check = |r: &RawSketchwareProject, t: &[String; 6]| -> R {
        same!("project", r.project, t[0]); same!("file", r.file, t[1]); same!("library", r.library, t[2]);
        same!("resource", r.resource, t[3]); same!("view", r.view, t[4]); same!("logic", r.logic, t[5]);
        Ok(())
    };
    c.case("open", &desc, || {
        let g = |i: usize| enc[i].clone();
        let r = e("from_encrypted", RawSketchwareProject::from_encrypted(g(0), g(1), g(2), g(3), g(4), g(5), files.clone()))?;
        check(&r, &t)?;
        same!("resource files", r.resource_files, Some(files.clone()));
        let r = e("from_encrypted_wo_res", RawSketchwareProject::from_encrypted_wo_res(g(0), g(1), g(2), g(3), g(4), g(5)))?;
        check(&r, &t)?;
        same!("resource files", r.resource_files, None);
        let s = |i: usize| t[i].clone();
        let r = RawSketchwareProject::new(s(0), s(1), s(2), s(3), s(4), s(5), files.clone());
        check(&r, &t)?;
        same!("resource files", r.resource_files, Some(files.clone()));
        let r = RawSketchwareProject::new_wo_res(s(0), s(1), s(2), s(3), s(4), s(5));
        check(&r, &t)?;
        same!("resource files", r.resource_files, None);
        Ok(())
    });
    for slot in 0..6 {
        for (what, bad) in [("no ciphertext", vec![1u8, 2, 3]), ("not UTF-8", refcrypto::enc(&[0x61, 0xff, 0xfe, 0x62])), ("truncated UTF-8", refcrypto::enc(&[0x61, 0xe2, 0x82])), ("empty", vec![])] {
            let mut x = enc.clone();
            x[slot] = bad;
            c.case("one bad slot", &format!("slot {} {}: {}", slot, what, desc), || {
                let g = |i: usize| x[i].clone();
                ensure!(RawSketchwareProject::from_encrypted(g(0), g(1), g(2), g(3), g(4), g(5), vec![]).is_err(), "from_encrypted succeeded");
                ensure!(RawSketchwareProject::from_encrypted_wo_res(g(0), g(1), g(2), g(3), g(4), g(5)).is_err(), "from_encrypted_wo_res succeeded");
                Ok(())
            });
        }
    }
}
fn c02_fixed(c: &mut Ctx) { c02_open(c, ["p", "f", "l", "r", "v", "g"].map(String::from), vec![]); }
fn c02(c: &mut Ctx) {
    let t = [0; 6].map(|_| c.rng.text());
    let files = vec(&mut c.rng, 3, |r| { let n = r.text(); let t = *r.pick(&RTYPES); wrapper(r, n, t) });
    c02_open(c, t, files);
}

// ---------------------------------------------------------------- C03
fn json_rt<T>(v: &T, text: &str) -> R where T: PartialEq + std::fmt::Debug + swrs_serde::Ser + swrs_serde::De {
    same!("written", v.ser()?, text);
    let back = T::de(text)?;
    same!("read back", &back, v);
    Ok(())
}
mod swrs_serde {
    // serde_json over the crate's own (de)serialisers, without naming serde here
    pub trait Ser { fn ser(&self) -> Result<String, String>; }
    pub trait De: Sized { fn de(s: &str) -> Result<Self, String>; }
    macro_rules! sd { ($($t:ty),* $(,)?) => { $(
        impl Ser for $t { fn ser(&self) -> Result<String, String> { serde_json::to_string(self).map_err(|e| e.to_string()) } }
        impl De for $t { fn de(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) } }
    )* } }
    use swrs::parser::file::*; use swrs::parser::view::models::{self, layout, text, image};
    sd!(swrs::color::Color, layout::Size, FileType, KeyboardSetting, Orientation, Theme, models::ChoiceMode, models::SpinnerMode,
        layout::Orientation, layout::gravity::Gravity, text::ImeOption, text::InputType, text::TextType, image::ImageScaleType, swrs::parser::project::Project, models::AndroidView, FileItem);
}
use swrs_serde::{De, Ser};
fn c03_enum<T: PartialEq + std::fmt::Debug + Clone + Ser + De>(c: &mut Ctx, what: &str, map: &[(i64, T)]) {
    for n in -300i64..=13000 {
        let text = n.to_string();
        match map.iter().find(|(k, _)| *k == n) {
            Some((_, v)) => c.case(what, &text, || json_rt(v, &text)),
            None => {
                if n > 300 && n % 37 != 0 && !map.iter().any(|(k, _)| (*k - n).abs() <= 2) { continue }
                c.case(what, &text, || { if let Ok(v) = T::de(&text) { return Err(format!("out of range, but read as {:?}", v)) } Ok(()) })
            }
        }
    }
}
fn base_view() -> AndroidView { AndroidView::new_empty("v", 0, "root", 0) }
fn view_value() -> serde_json::Value { serde_json::from_str(&serde_json::to_string(&base_view()).unwrap()).unwrap() }
fn c03_color(c: &mut Ctx, v: u32) { c.case("colour", &format!("{:#x}", v), || json_rt(&Color::from(v), &(v as i32).to_string())); }
fn c03_size(c: &mut Ctx, n: i32) {
    use layout::Size;
    let s = match n { -2 => Size::MatchParent, -1 => Size::WrapContent, n => Size::Fixed(n) };
    c.case("size", &n.to_string(), || json_rt(&s, &n.to_string()));
}
fn c03_u16(c: &mut Ctx, n: u16) {
    c.case("numeric string", &n.to_string(), || {
        let mut p = project(&mut Rng::new(1, 2, 3));
        p.id = n; p.version_code = n;
        let t = e("write", p.reconstruct())?;
        let v: serde_json::Value = serde_json::from_str(&t).map_err(|x| x.to_string())?;
        same!("sc_id", v["sc_id"], serde_json::json!(n.to_string()));
        same!("sc_ver_code", v["sc_ver_code"], serde_json::json!(n.to_string()));
        let q = e("read", Project::parse(&t))?;
        same!("id", q.id, n); same!("version code", q.version_code, n);
        Ok(())
    });
}
fn c03_fixed(c: &mut Ctx) {
    use layout::Orientation as LO;
    c03_enum(c, "FileType", &[(0, FileType::Activity), (1, FileType::CustomView), (2, FileType::Drawer)]);
    c03_enum(c, "KeyboardSetting", &[(0, KeyboardSetting::Unspecified), (1, KeyboardSetting::Visible), (2, KeyboardSetting::Hidden)]);
    c03_enum(c, "Orientation", &[(0, Orientation::Portrait), (1, Orientation::Landscape), (2, Orientation::Both)]);
    c03_enum(c, "Theme", &[(-1, Theme::None), (0, Theme::Default), (1, Theme::Actionbar), (2, Theme::Fullscreen)]);
    c03_enum(c, "ChoiceMode", &[(0, ChoiceMode::None), (1, ChoiceMode::Single), (2, ChoiceMode::Multi)]);
    c03_enum(c, "SpinnerMode", &[(0, SpinnerMode::Dialog), (1, SpinnerMode::Dropdown)]);
    c03_enum(c, "layout Orientation", &[(1, LO::Vertical), (0, LO::Unspecified), (-1, LO::Horizontal)]);
    c03_enum(c, "ImeOption", &[(0, text::ImeOption::Normal), (1, text::ImeOption::None), (2, text::ImeOption::Go), (3, text::ImeOption::Search), (4, text::ImeOption::Send), (5, text::ImeOption::Next), (6, text::ImeOption::Done)]);
    c03_enum(c, "InputType", &[(8194, text::InputType::NumberDecimal), (4098, text::InputType::NumberSigned), (12290, text::InputType::NumberSignedDecimal), (129, text::InputType::Password), (3, text::InputType::Phone), (1, text::InputType::Text)]);
    c03_enum(c, "TextType", &[(0, text::TextType::Normal), (1, text::TextType::Bold), (2, text::TextType::Italic), (3, text::TextType::BoldItalic)]);
    let g: Vec<(i64, layout::gravity::Gravity)> = (0..256).map(|n| (n as i64, layout::gravity::Gravity(n as u8))).collect();
    c03_enum(c, "Gravity", &g);
    use image::ImageScaleType as S;
    for (s, v) in [("CENTER", S::Center), ("FIT_XY", S::FitXy), ("FIT_START", S::FitStart), ("FIT_CENTER", S::FitCenter), ("FIT_END", S::FitEnd), ("CENTER_CROP", S::CenterCrop), ("CENTER_INSIDE", S::CenterInside)] {
        c.case("ImageScaleType", s, || json_rt(&v, &format!("\"{}\"", s)));
    }
    for s in ["", "center", "CENTRE", "FIT", "FIT_XYZ", "Center", "0"] {
        c.case("ImageScaleType", s, || { ensure!(S::de(&format!("\"{}\"", s)).is_err(), "accepted"); Ok(()) });
    }
    for m in 0..=255u8 {
        c.case("option mask", &m.to_string(), || {
            let o = ActivityOptions { toolbar_enabled: m & 1 != 0, fullscreen_enabled: m & 2 != 0, drawer_enabled: m & 4 != 0, fab_enabled: m & 8 != 0 };
            same!("from_num", ActivityOptions::from_num(m), o);
            same!("as_num", o.as_num(), m & 15);
            let mut it = file_item(&mut Rng::new(1, 1, 1));
            it.options = o.clone();
            let t = it.ser()?;
            let mut v: serde_json::Value = serde_json::from_str(&t).map_err(|x| x.to_string())?;
            same!("options", v["options"], serde_json::json!(m & 15));
            same!("read back", FileItem::de(&t)?.options, o);
            v["options"] = serde_json::json!(m);
            same!("read mask", FileItem::de(&v.to_string())?.options, o);
            Ok(())
        });
    }
    // flags
    for (key, set) in [("checked", 0), ("clickable", 1), ("enabled", 2), ("singleLine", 3)] {
        for n in 0..=255u8 {
            c.case("flag 0/1", &format!("{} {}", key, n), || {
                let get = |x: &AndroidView| [x.checked, x.clickable, x.enabled, x.text.single_line][set];
                let mut v = view_value();
                if set == 3 { v["text"][key] = serde_json::json!(n) } else { v[key] = serde_json::json!(n) }
                let x = AndroidView::de(&v.to_string())?;
                same!("flag", get(&x), n != 0);
                let w: serde_json::Value = serde_json::from_str(&x.ser()?).unwrap();
                let w = if set == 3 { w["text"][key].clone() } else { w[key].clone() };
                same!("written", w, serde_json::json!(if n != 0 { 1 } else { 0 }));
                Ok(())
            });
        }
    }
    for (s, want) in [("true", Some(true)), ("false", Some(false)), ("", None), ("True", None), ("1", None), ("0", None), ("yes", None), ("false ", None), ("truefalse", None), ("t", None)] {
        c.case("flag true/false", s, || {
            let mut v = view_value();
            v["indeterminate"] = serde_json::json!(s);
            match (AndroidView::de(&v.to_string()), want) {
                (Ok(x), Some(b)) => {
                    same!("flag", x.indeterminate, b);
                    let w: serde_json::Value = serde_json::from_str(&x.ser()?).unwrap();
                    same!("written", w["indeterminate"], serde_json::json!(s));
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (r, _) => Err(format!("{:?}", r.map(|x| x.indeterminate)))
            }
        });
    }
    for n in (0..=65535u32).step_by(61).chain([1, 9, 10, 99, 100, 600, 601, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535]) { c03_u16(c, n as u16) }
    for s in ["", "-1", "65536", "99999999", "1.0", "0x10", " 1", "1 ", "abc", "1e3"] {
        for key in ["sc_id", "sc_ver_code"] {
            c.case("malformed numeric string", &format!("{} {:?}", key, s), || {
                let mut v: serde_json::Value = serde_json::from_str(&project(&mut Rng::new(1, 2, 3)).ser()?).unwrap();
                v[key] = serde_json::json!(s);
                ensure!(Project::parse(&v.to_string()).is_err(), "accepted");
                Ok(())
            });
        }
    }
    for v in 0..=300u32 { c03_color(c, v); c03_color(c, !v); c03_size(c, v as i32); c03_size(c, -(v as i32)) }
    for b in 0..32 { c03_color(c, 1 << b); c03_color(c, (1u64 << (b + 1)).wrapping_sub(1) as u32); c03_size(c, 1i32.wrapping_shl(b)); c03_size(c, (1i32.wrapping_shl(b)).wrapping_sub(1)); c03_size(c, (1i32.wrapping_shl(b)).wrapping_neg()) }
    for n in 0..=255u8 {
        c.case("variable type", &n.to_string(), || {
            use swrs::parser::logic::variable::*;
            let want = [VariableType::Boolean, VariableType::Integer, VariableType::String, VariableType::HashMap].get(n as usize).copied();
            match (VariableType::try_from(n), want) {
                (Ok(a), Some(b)) => { same!("type", a, b); same!("number", a as u8, n); }
                (Err(x), None) => same!("error value", x.value, n),
                (r, _) => return Err(format!("{:?}", r)),
            }
            let t = format!("{}:x", n);
            match (Variable::parse(&t), want) {
                (Ok(v), Some(b)) => { same!("type", v.r#type, b); same!("text", v.reconstruct().unwrap(), t); }
                (Err(_), None) => {}
                (r, _) => return Err(format!("{:?}", r)),
            }
            match (list_variable::ListVariable::parse(&t), want) {
                (Ok(v), Some(b)) => { same!("type", v.r#type, b); same!("text", v.reconstruct().unwrap(), t); }
                (Err(_), None) => {}
                (r, _) => return Err(format!("{:?}", r)),
            }
            Ok(())
        });
    }
}
fn c03(c: &mut Ctx) {
    for _ in 0..20 { let v = c.rng.next() as u32; c03_color(c, v); let v = c.rng.next() as i32; c03_size(c, v); }
    let v = c.rng.u16(); c03_u16(c, v);
}

// ---------------------------------------------------------------- C04
/// days since 1970-01-01 -> (year, month, day), independent of chrono
fn civil(days: i64) -> (i64, i64, i64) {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    // jump by 400-year blocks, then walk
    let mut y = 1970 + days.div_euclid(146097) * 400;
    let mut d = days.rem_euclid(146097);
    loop { let n = if leap(y) { 366 } else { 365 }; if d < n { break } d -= n; y += 1; }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] { d -= ml[m]; m += 1; }
    (y, m as i64 + 1, d + 1)
}
fn date_text(ts: u64) -> String {
    let t = ts as i64;
    let (y, m, d) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    format!("{:04}{:02}{:02}{:02}{:02}{:02}", y, m, d, s / 3600, s / 60 % 60, s % 60)
}
fn c04_check(c: &mut Ctx, p: Project) {
    c.case("round trip", &d(&p), || {
        let t = e("write", p.reconstruct())?;
        same!("project", e("read", Project::parse(&t))?, p);
        let v: serde_json::Value = serde_json::from_str(&t).map_err(|x| x.to_string())?;
        same!("date text", v["my_sc_reg_dt"], serde_json::json!(date_text(p.date_created)));
        let ci = |c: Color| serde_json::json!(u32::from_str_radix(&c.to_string()[2..], 16).unwrap() as i32);
        let cp = &p.color_palette;
        // an independently built text of the same project
        let text = serde_json::json!({
            "sc_id": p.id.to_string(), "my_app_name": p.app_name, "my_ws_name": p.workspace_name, "my_sc_pkg_name": p.package_name,
            "sc_ver_code": p.version_code.to_string(), "sc_ver_name": p.version_name, "my_sc_reg_dt": date_text(p.date_created), "custom_icon": p.custom_icon,
            "color_primary": ci(cp.color_primary), "color_primary_dark": ci(cp.color_primary_dark), "color_accent": ci(cp.color_accent),
            "color_control_normal": ci(cp.color_control_normal), "color_control_highlight": ci(cp.color_control_highlight), "sketchware_ver": p.sketchware_version
        });
        same!("written text", v, text);
        same!("project from canonical text", e("read", Project::parse(&text.to_string()))?, p);
        Ok(())
    });
}
fn bad_dates() -> Vec<String> {
    let mut v: Vec<String> = ["", "2022", "20221301000000", "20220001000000", "20220230000000", "20210229000000", "20220132000000", "20220100000000", "20220101240000", "20220101006000",
        "20220101000060", "2022010100000", "abcdefghijklmn", "2022-01-01 00:00", "202é0101000000", "2022010100000é", "2022010é000000", "éééééééééééééé", "20220101 00000", "2022010100 000", "😀😀😀😀", "-0220101000000", "２０２２０１０１", "19000229000000", "20220431000000"].iter().map(|s| s.to_string()).collect();
    for i in 0..14 { let mut b: Vec<char> = "20220101000000".chars().collect(); b[i] = 'x'; v.push(b.iter().collect()); b[i] = 'é'; v.push(b.iter().collect()); }
    v
}
fn c04_bad(c: &mut Ctx, s: String) {
    c.case("malformed date", &s, || {
        let mut v: serde_json::Value = serde_json::from_str(&project(&mut Rng::new(1, 2, 3)).ser()?).unwrap();
        v["my_sc_reg_dt"] = serde_json::json!(s);
        if let Ok(p) = Project::parse(&v.to_string()) { return Err(format!("accepted as {}", p.date_created)) }
        Ok(())
    });
}
fn c04_fixed(c: &mut Ctx) {
    for s in bad_dates() { c04_bad(c, s) }
    let base = project(&mut Rng::new(4, 4, 4));
    for ts in [0i64, 1, -1, 59, 60, 3599, 3600, 86399, 86400, -62167219200, 253402300799, 951782400, 68169600, 1078012800, 1709164800, 4107456000, -2203891200, 946684799, 946684800] {
        let mut p = base.clone(); p.date_created = ts as u64; c04_check(c, p);
    }
    for day in 0..800u64 { let mut p = base.clone(); p.date_created = 1672531200 + day * 86400 + (day * 3671) % 86400; c04_check(c, p) }
    for ts in [253402300800u64, (-62167219201i64) as u64, u64::MAX / 2, i64::MIN as u64] {
        c.case("unwritable date", &ts.to_string(), || { let mut p = base.clone(); p.date_created = ts; let _ = p.reconstruct(); Ok(()) });
    }
}
fn c04(c: &mut Ctx) {
    let p = project(&mut c.rng);
    c04_check(c, p);
    if c.rng.chance(1, 4) {
        // break one component of a good date
        let mut b = date_text(timestamp(&mut c.rng));
        match c.rng.below(5) {
            0 => b.truncate(13),
            1 => b.replace_range(4..6, &format!("{:02}", if c.rng.bool() { 0 } else { 13 + c.rng.below(87) })),
            2 => b.replace_range(8..10, &format!("{:02}", 24 + c.rng.below(76))),
            3 => b.replace_range(10..12, &format!("{:02}", 60 + c.rng.below(40))),
            _ => b.replace_range(6..8, if c.rng.bool() { "00" } else { "32" }),
        }
        c04_bad(c, b);
    }
}

// ---------------------------------------------------------------- C05
fn lines<T: Parsable>(items: &[T]) -> Result<String, String> {
    let mut s = String::new();
    for i in items { s.push_str(&i.reconstruct().map_err(|_| "cannot write an item".to_string())?); s.push('\n'); }
    Ok(s)
}
fn c05(c: &mut Ctx) {
    let f = file(&mut c.rng, c.size);
    let order = c.rng.bool();
    c.case("round trip", &d(&f), || {
        let t = e("write", f.reconstruct())?;
        same!("file", e("read", File::parse(&t))?, f);
        let (a, b) = (format!("@activity\n{}", lines(&f.activities)?), format!("@customview\n{}", lines(&f.custom_views)?));
        for text in [if order { format!("{}{}", a, b) } else { format!("{}{}", b, a) }, format!("{}{}", a, b).trim_end().to_string()] {
            same!("file from canonical text", e("read", File::parse(&text))?, f);
        }
        Ok(())
    });
    let it = file_item(&mut c.rng);
    c.case("item", &d(&it), || {
        let t = e("write", it.reconstruct())?;
        same!("item", e("read", FileItem::parse(&t))?, it);
        Ok(())
    });
    let bad = c.rng.name(&["@"]);
    c.case("malformed item", &bad, || {
        if serde_json::from_str::<serde_json::Value>(&bad).is_ok() || bad.is_empty() { return Ok(()) }
        ensure!(File::parse(&format!("@activity\n{}", bad)).is_err(), "accepted a malformed activity");
        ensure!(File::parse(&format!("@activity\n@customview\n{}", bad)).is_err(), "accepted a malformed custom view");
        Ok(())
    });
}

// ---------------------------------------------------------------- C06
const HEADS: [&str; 4] = ["@firebaseDB", "@compat", "@admob", "@googleMap"];
fn c06_check(c: &mut Ctx, l: Library, perm: [usize; 4]) {
    c.case("round trip", &d(&l), || { let t = e("write", l.reconstruct())?; same!("library", e("read", Library::parse(&t))?, l); Ok(()) });
    let items = [l.firebase_db.clone(), l.compat.clone(), l.admob.clone(), l.google_map.clone()];
    let txt: Vec<String> = items.iter().map(|i| i.ser_item()).collect();
    let desc = format!("{:?} order {:?}", l, perm);
    c.case("any section order", &desc, || {
        let t = perm.iter().map(|&i| format!("{}\n{}", HEADS[i], txt[i])).collect::<Vec<_>>().join("\n");
        same!("library", e("read", Library::parse(&t))?, l);
        Ok(())
    });
    for skip in 0..4 {
        c.case("missing or malformed section", &format!("{} {}", skip, desc), || {
            let mk = |f: &dyn Fn(usize) -> Option<String>| perm.iter().filter_map(|&i| f(i)).collect::<Vec<_>>().join("\n");
            let missing = mk(&|i| if i == skip { None } else { Some(format!("{}\n{}", HEADS[i], txt[i])) });
            ensure!(Library::parse(&missing).is_err(), "section {} missing, accepted", HEADS[skip]);
            let malformed = mk(&|i| Some(format!("{}\n{}", HEADS[i], if i == skip { "{\"adUnits\":" } else { txt[i].as_str() })));
            ensure!(Library::parse(&malformed).is_err(), "section {} malformed, accepted", HEADS[skip]);
            let eof = format!("{}\n{}", missing, HEADS[skip]);
            ensure!(Library::parse(&eof).is_err(), "nothing after {}, accepted", HEADS[skip]);
            Ok(())
        });
    }
}
trait SerItem { fn ser_item(&self) -> String; }
impl SerItem for LibraryItem { fn ser_item(&self) -> String {
    serde_json::json!({"adUnits": self.ad_units.iter().map(|a| serde_json::json!({"id": a.id, "name": a.name})).collect::<Vec<_>>(), "data": self.data, "libType": self.lib_type,
        "reserved1": self.reserved1, "reserved2": self.reserved2, "reserved3": self.reserved3, "testDevices": self.test_devices, "useYn": self.use_yn}).to_string()
} }
fn c06_fixed(c: &mut Ctx) {
    let l = library(&mut Rng::new(6, 6, 6));
    for a in 0..4 { for b in 0..4 { for x in 0..4 { for y in 0..4 {
        let mut s = [a, b, x, y]; let p = s; s.sort(); if s == [0, 1, 2, 3] { c06_check(c, l.clone(), p) }
    } } } }
    c.case("empty text", "", || { ensure!(Library::parse("").is_err(), "accepted"); Ok(()) });
}
fn c06(c: &mut Ctx) {
    let l = library(&mut c.rng);
    let mut p = vec![0, 1, 2, 3]; c.rng.shuffle(&mut p);
    c06_check(c, l, [p[0], p[1], p[2], p[3]]);
}

// ---------------------------------------------------------------- C07
fn c07(c: &mut Ctx) {
    let f = resource(&mut c.rng, c.size);
    let mut perm = vec![0, 1, 2]; c.rng.shuffle(&mut perm);
    c.case("round trip", &d(&f), || {
        let t = e("write", f.reconstruct())?;
        same!("resource", e("read", Resource::parse(&t))?, f);
        let s = [format!("@images\n{}", lines(&f.images)?), format!("@sounds\n{}", lines(&f.sounds)?), format!("@fonts\n{}", lines(&f.fonts)?)];
        let text = perm.iter().map(|&i| s[i].as_str()).collect::<String>();
        same!("resource from canonical text", e("read", Resource::parse(&text))?, f);
        same!("resource from canonical text without last line break", e("read", Resource::parse(text.trim_end()))?, f);
        Ok(())
    });
    let it = res_item(&mut c.rng);
    c.case("item", &d(&it), || { let t = e("write", it.reconstruct())?; same!("item", e("read", ResourceItem::parse(&t))?, it); Ok(()) });
}

// ---------------------------------------------------------------- C08
fn vkeys(v: &View) -> (Vec<(String, Layout)>, Vec<(String, AndroidView)>) {
    (v.layouts.iter().map(|(a, b)| (a.clone(), b.clone())).collect(), v.fabs.iter().map(|(a, b)| (a.clone(), b.clone())).collect())
}
fn c08_check(c: &mut Ctx, v: View) {
    c.case("round trip", &d(&v), || {
        let t = e("write", v.reconstruct())?;
        let w = e("read", View::parse(&t))?;
        same!("layout names", w.layouts.keys().collect::<Vec<_>>(), v.layouts.keys().collect::<Vec<_>>());
        same!("fab names", w.fabs.keys().collect::<Vec<_>>(), v.fabs.keys().collect::<Vec<_>>());
        same!("view", vkeys(&w), vkeys(&v));
        // an independently built text
        let mut s = String::new();
        for (n, l) in &v.layouts { s.push_str(&format!("@{}.xml\n{}\n", n, lines(&l.0)?)); }
        for (n, f) in &v.fabs { s.push_str(&format!("@{}.xml_fab\n{}\n\n", n, f.ser()?)); }
        same!("view from canonical text", vkeys(&e("read", View::parse(&s))?), vkeys(&v));
        for l in v.layouts.values() { same!("layout alone", e("read", Layout::parse(&e("write", l.reconstruct())?))?, *l); }
        Ok(())
    });
}
fn c08_fixed(c: &mut Ctx) {
    for pattern in 0..27usize { // three layouts, each empty / one view / two views
        let mut v = View { layouts: Default::default(), fabs: Default::default() };
        let mut r = Rng::new(8, pattern as u64, 0);
        for (i, n) in ["main", "b", "c"].iter().enumerate() {
            let k = pattern / 3usize.pow(i as u32) % 3;
            v.layouts.insert(n.to_string(), Layout((0..k).map(|_| android_view(&mut r)).collect()));
        }
        c08_check(c, v.clone());
        v.fabs.insert("c".into(), android_view(&mut r));
        c08_check(c, v);
    }
}
fn c08(c: &mut Ctx) { let v = view(&mut c.rng, c.size); c08_check(c, v); }

// ---------------------------------------------------------------- C09
pub fn screen_parts(s: &ScreenLogic) -> Vec<String> {
    vec![
        format!("name {:?}", s.name),
        format!("containers {:?}", s.block_containers.iter().collect::<Vec<_>>()),
        format!("variables {:?}", s.variables.as_ref().map(|p| p.0.iter().collect::<Vec<_>>())),
        format!("lists {:?}", s.list_variables.as_ref().map(|p| p.0.iter().collect::<Vec<_>>())),
        format!("components {:?}", s.components), format!("events {:?}", s.events),
        format!("more blocks {:?}", s.more_blocks.as_ref().map(|p| p.0.iter().collect::<Vec<_>>())),
    ]
}
pub fn same_logic(a: &Logic, b: &Logic) -> R {
    let k = |l: &Logic| { let mut v: Vec<String> = l.screens.keys().cloned().collect(); v.sort(); v };
    same!("screens", k(a), k(b));
    for (n, s) in &b.screens {
        for (x, y) in screen_parts(&a.screens[n]).iter().zip(screen_parts(s)) { same!(format!("screen {:?}", n), *x, y) }
        ensure!(a.screens[n] == *s, "screen {:?} differs", n);
    }
    Ok(())
}
fn c09(c: &mut Ctx) {
    let l = logic(&mut c.rng, c.size);
    c.case("round trip", &d(&l), || {
        let t = e("write", l.reconstruct())?;
        same_logic(&e("read", Logic::parse(&t))?, &l)
    });
    let order = c.rng.next();
    c.case("canonical text", &d(&l), || {
        let mut secs: Vec<String> = vec![];
        for s in l.screens.values() {
            let n = &s.name;
            if let Some(p) = &s.variables { secs.push(format!("@{}.java_var\n{}", n, p.0.values().map(|v| format!("{}:{}\n", v.r#type as u8, v.name)).collect::<String>())) }
            if let Some(p) = &s.list_variables { secs.push(format!("@{}.java_list\n{}", n, p.0.values().map(|v| format!("{}:{}\n", v.r#type as u8, v.name)).collect::<String>())) }
            if let Some(p) = &s.components { secs.push(format!("@{}.java_components\n{}", n, lines(&p.0)?)) }
            if let Some(p) = &s.events { secs.push(format!("@{}.java_events\n{}", n, lines(&p.0)?)) }
            if let Some(p) = &s.more_blocks { secs.push(format!("@{}.java_func\n{}", n, p.0.values().map(|m| format!("{}:{}\n", m.id, m.spec)).collect::<String>())) }
        }
        Rng::new(order, 0, 0).shuffle(&mut secs);
        for s in l.screens.values() { for (k, b) in &s.block_containers { secs.push(format!("@{}.java_{}\n{}", s.name, k, lines(&b.0)?)) } }
        same_logic(&e("read", Logic::parse(secs.join("\n").trim_end()))?, &l)
    });
    if let Some(s) = l.screens.values().next().cloned() {
        c.case("pools alone", &d(&s), || {
            if let Some(p) = &s.variables { same!("variables", e("read", variable::VariablePool::parse(&p.reconstruct().unwrap()))?, *p); }
            if let Some(p) = &s.list_variables { same!("lists", e("read", list_variable::ListVariablePool::parse(&p.reconstruct().unwrap()))?, *p); }
            if let Some(p) = &s.components { same!("components", e("read", component::ComponentPool::parse(&e("write", p.reconstruct())?))?, *p); }
            if let Some(p) = &s.events { same!("events", e("read", event::EventPool::parse(&p.reconstruct().unwrap()))?, *p); }
            if let Some(p) = &s.more_blocks { same!("more blocks", e("read", more_block::MoreBlockPool::parse(&p.reconstruct().unwrap()))?, *p); }
            for (k, b) in &s.block_containers {
                same!("container", e("read", BlockContainer::parse(&e("write", b.reconstruct())?))?, *b);
                let h = BlockContainerHeader { screen_name: s.name.clone(), container_name: k.clone() };
                same!("header", e("read", BlockContainerHeader::parse(&h.reconstruct().unwrap()))?, h);
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C10
pub fn parsed(r: &mut Rng, n: usize) -> SketchwareProject {
    SketchwareProject { project: project(r), file: file(r, n), library: library(r), resource: resource(r, n), view: view(r, n.min(3)), logic: logic(r, n.min(3)), resource_files: if r.bool() { Some(resource_files(r, n)) } else { None } }
}
pub fn same_parsed(a: &SketchwareProject, b: &SketchwareProject) -> R {
    same!("project", a.project, b.project); same!("file", a.file, b.file); same!("library", a.library, b.library); same!("resource", a.resource, b.resource);
    same!("view", vkeys(&a.view), vkeys(&b.view)); same_logic(&a.logic, &b.logic)?; same!("resource files", a.resource_files, b.resource_files);
    Ok(())
}
fn key(w: &ResourceFileWrapper) -> String { format!("{:?}", w) }
fn sorted(v: &[ResourceFileWrapper]) -> Vec<String> { let mut k: Vec<String> = v.iter().map(key).collect(); k.sort(); k }
fn c10(c: &mut Ctx) {
    let p = parsed(&mut c.rng, c.size);
    let desc = d(&p);
    c.case("round trip", &desc, || {
        let raw: RawSketchwareProject = e("write", p.clone().try_into())?;
        same!("project text", raw.project, e("write", p.project.reconstruct())?);
        same!("file text", raw.file, e("write", p.file.reconstruct())?);
        same!("library text", raw.library, e("write", p.library.reconstruct())?);
        same!("resource text", raw.resource, e("write", p.resource.reconstruct())?);
        same!("view text", raw.view, e("write", p.view.reconstruct())?);
        same!("logic text", raw.logic, e("write", p.logic.reconstruct())?);
        let all = |f: &ResourceFiles| f.custom_icon.iter().chain(f.images.values()).chain(f.sounds.values()).chain(f.fonts.values()).cloned().collect::<Vec<_>>();
        same!("resource files", raw.resource_files.as_ref().map(|v| sorted(v)), p.resource_files.as_ref().map(|f| sorted(&all(f))));
        same_parsed(&e("parse_from", SketchwareProject::parse_from(raw.clone()))?, &p)?;
        let r = raw;
        match r.resource_files.clone() {
            Some(f) => same_parsed(&e("parse", SketchwareProject::parse(r.project.clone(), r.file.clone(), r.library.clone(), r.resource.clone(), r.view.clone(), r.logic.clone(), f))?, &p)?,
            None => same_parsed(&e("parse_wo_res", SketchwareProject::parse_wo_res(r.project.clone(), r.file.clone(), r.library.clone(), r.resource.clone(), r.view.clone(), r.logic.clone()))?, &p)?,
        }
        for slot in 0..7 {
            let mut b = r.clone();
            match slot {
                0 => b.project = "{".into(), 1 => b.file = "@activity\n{".into(), 2 => b.library = "@compat\n{}".into(), 3 => b.resource = "@images\n{".into(),
                4 => b.view = "@main.xml\n{".into(), 5 => b.logic = "@MainActivity.java_var\nx".into(),
                _ => b.resource_files = Some(vec![ResourceFileWrapper::Path("/nonexistent/images/600/x.png".into())])
            }
            ensure!(SketchwareProject::parse_from(b).is_err(), "part {} unparsable, but the project parsed", slot);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C11
fn read_all(s: &str) {
    let _ = Project::parse(s); let _ = File::parse(s); let _ = FileItem::parse(s); let _ = Library::parse(s); let _ = LibraryItem::parse(s);
    let _ = Resource::parse(s); let _ = ResourceItem::parse(s); let _ = View::parse(s); let _ = Layout::parse(s); let _ = AndroidView::parse(s);
    let _ = Logic::parse(s); let _ = variable::VariablePool::parse(s); let _ = variable::Variable::parse(s);
    let _ = list_variable::ListVariablePool::parse(s); let _ = list_variable::ListVariable::parse(s);
    let _ = component::ComponentPool::parse(s); let _ = component::Component::parse(s); let _ = event::EventPool::parse(s); let _ = event::Event::parse(s);
    let _ = more_block::MoreBlockPool::parse(s); let _ = more_block::MoreBlock::parse(s); let _ = BlockContainer::parse(s); let _ = Block::parse(s); let _ = BlockContainerHeader::parse(s);
    let _ = SketchwareProject::parse_wo_res(s.to_string(), s.to_string(), s.to_string(), s.to_string(), s.to_string(), s.to_string());
}
fn c11_text(c: &mut Ctx, s: &str) { c.case("read", s, || { read_all(s); Ok(()) }); }
fn c11_fixed(c: &mut Ctx) {
    let pieces = ["", "@", ".", "\n", "@.", ".java_var", ".java_list", ".java_components", ".java_events", ".java_func", ".java_", ".xml", ".xml_fab", "é", "@é", "a", ":", "0", "{", "{}", "@activity", "@customview", "@images", "@compat", "@firebaseDB", "java_var", "0:a", "256:a", "-1:a", "\u{2028}", "\r"];
    for a in pieces { for b in pieces { c11_text(c, &format!("{}{}", a, b)); for x in pieces { c11_text(c, &format!("{}{}{}", a, b, x)); } } }
    for a in bad_dates() {
        let mut v: serde_json::Value = serde_json::from_str(&project(&mut Rng::new(1, 2, 3)).reconstruct().unwrap()).unwrap();
        v["my_sc_reg_dt"] = serde_json::json!(a);
        c11_text(c, &v.to_string());
    }
}
fn c11(c: &mut Ctx) {
    let n = c.size.min(3);
    let base = match c.rng.below(8) {
        0 => project(&mut c.rng).reconstruct().unwrap(), 1 => file(&mut c.rng, n).reconstruct().unwrap(), 2 => library(&mut c.rng).reconstruct().unwrap(),
        3 => resource(&mut c.rng, n).reconstruct().unwrap(), 4 => view(&mut c.rng, n).reconstruct().unwrap(), 5 | 6 => logic(&mut c.rng, n).reconstruct().unwrap_or_default(),
        _ => (0..c.rng.below(6)).map(|_| c.rng.text() + "\n").collect()
    };
    for _ in 0..6 {
        let mut ch: Vec<char> = base.chars().collect();
        for _ in 0..c.rng.range(1, 4) {
            let k = c.rng.below(ch.len() + 1);
            match c.rng.below(8) {
                0 => ch.truncate(k),
                1 => { if k < ch.len() { ch.remove(k); } }
                2 => { let x = c.rng.chr(); ch.insert(k, x) }
                3 => { if k < ch.len() { ch[k] = c.rng.chr() } }
                4 => { let t = c.rng.pick(&["@", "\n", "\n\n", "@.java_var", "\n@x.java_", ".java_", "@a", ":", "\n@\n", "%", "é", "@main.xml\n", ".xml_fab", "-"]).to_string(); for (i, x) in t.chars().enumerate() { ch.insert(k + i, x) } }
                5 => { let l = k + c.rng.below(40); let l = l.min(ch.len()); ch.drain(k..l); }
                // drop a whole line
                6 => { if let Some(p) = ch[k..].iter().position(|x| *x == '\n') { let q = ch[k + p + 1..].iter().position(|x| *x == '\n').map(|q| k + p + 1 + q).unwrap_or(ch.len()); ch.drain(k + p..q); } }
                _ => { if let Some(p) = ch[k..].iter().position(|x| *x == '@') { ch.truncate(k + p + 1 + c.rng.below(4).min(ch.len() - k - p - 1)); } }
            }
        }
        let s: String = ch.into_iter().collect();
        c11_text(c, &s);
    }
}

// ---------------------------------------------------------------- C24
fn c24_check(c: &mut Ctx, list: Vec<(ResourceFileWrapper, Option<(usize, String)>)>) {
    // each entry: wrapper and where it must end up (0 image, 1 sound, 2 font, 3 icon), or None if it must be refused
    let files: Vec<_> = list.iter().map(|x| x.0.clone()).collect();
    c.case("sort", &d(&files), || {
        let r = ResourceFiles::try_from(files.clone());
        if list.iter().any(|x| x.1.is_none()) { ensure!(r.is_err(), "a bad path was accepted"); return Ok(()) }
        let r = e("try_from", r)?;
        let maps = [&r.images, &r.sounds, &r.fonts];
        for k in 0..3 {
            let mut want: Vec<(String, String)> = list.iter().filter(|x| x.1.as_ref().unwrap().0 == k).map(|x| (x.1.as_ref().unwrap().1.clone(), key(&x.0))).collect();
            want.sort();
            let mut got: Vec<(String, String)> = maps[k].iter().map(|(a, b)| (a.clone(), key(b))).collect();
            got.sort();
            same!(format!("kind {}", k), got, want);
        }
        same!("icon", r.custom_icon.as_ref().map(key), list.iter().filter(|x| x.1.as_ref().unwrap().0 == 3).last().map(|x| key(&x.0)));
        for k in 0..3 { for (n, w) in maps[k] { same!("full name", w.get_full_name(), *n) } }
        let back: Vec<ResourceFileWrapper> = r.into();
        same!("files", sorted(&back), sorted(&files));
        Ok(())
    });
}
const FOLDERS: [&str; 4] = ["images", "sounds", "fonts", "icons"];
fn real(dir: &std::path::Path, k: usize, id: &str, name: &str) -> ResourceFileWrapper {
    let p = dir.join(FOLDERS[k]).join(id);
    std::fs::create_dir_all(&p).unwrap();
    let f = p.join(name);
    std::fs::write(&f, b"x").unwrap();
    ResourceFileWrapper::Path(f)
}
fn c24_fixed(c: &mut Ctx) {
    let dir = c.scratch.join(".sketchware").join("resources");
    for k in 0..4 { let w = real(&dir, k, "600", "a.png"); c24_check(c, vec![(w, Some((k, "a.png".into())))]); }
    // the folder that counts is the one two levels up, not the name anywhere else
    let odd = c.scratch.join("images").join("sounds").join("600");
    std::fs::create_dir_all(&odd).unwrap();
    std::fs::write(odd.join("x"), b"").unwrap();
    c24_check(c, vec![(ResourceFileWrapper::Path(odd.join("x")), Some((1, "x".into())))]);
    for n in ["videos", "image", "imagesx", "Images", "icon", ""] {
        let p = c.scratch.join(format!("q{}", n)).join(n).join("600");
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join("x"), b"").unwrap();
        c24_check(c, vec![(ResourceFileWrapper::Path(p.join("x")), None)]);
    }
    c24_check(c, vec![(ResourceFileWrapper::Path(dir.join("images").join("600").join("not there.png")), None)]);
    c24_check(c, vec![(ResourceFileWrapper::Path("/".into()), None)]);
    c24_check(c, vec![]);
}
fn c24(c: &mut Ctx) {
    let dir = c.scratch.join(".sketchware").join("resources");
    let mut list = vec![];
    for k in 0..3 {
        let n = c.rng.below(c.size + 1);
        for nm in c.rng.names(n, &["/", "\0", ".", "\\"]) {
            if c.rng.chance(1, 3) && !nm.is_empty() && nm.len() < 100 { let id = c.rng.below(3).to_string(); list.push((real(&dir, k, &id, &nm), Some((k, nm)))) }
            else { let w = wrapper(&mut c.rng, nm.clone(), RTYPES[k]); list.push((w, Some((k, nm)))) }
        }
    }
    if c.rng.bool() { let nm = c.rng.text(); let w = wrapper(&mut c.rng, nm.clone(), ResourceType::CustomIcon); list.push((w, Some((3, nm)))) }
    if c.rng.chance(1, 6) { list.push((ResourceFileWrapper::Path(dir.join("images").join("600").join("missing")), None)) }
    c.rng.shuffle(&mut list);
    c24_check(c, list);
}
