//! C22: encoding and decoding of protocol messages.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};
use crate::text::gen_text;
use remote::jsonrpc::{ClientEvent, Error, Id, Notification, Request, Response};
use remote::protocol::{notifications, notifications::Notification as _, requests, requests::Request as _, Face, Text, TextFragment};
use serde_json::{json, Map, Value};

pub struct C22Check;
pub static C22: C22Check = C22Check;

pub fn gen_string(r: &mut Rng) -> String {
    match r.weighted(&[4, 3, 2, 1, 1, 1]) {
        0 => (*r.pick(&["", "a", "edit", "x\ny", "\r\n", "\u{2028}", "\u{85}", "\"", "\\", "\u{0}", "\u{7f}", "é", "🦊", "\u{1b}[0m", "{}", "null", "\u{feff}", "\u{10ffff}"])).to_string(),
        1 => gen_text(r, 3, 6),
        2 => (0..r.below(12)).map(|_| char::from_u32(r.below(0x80) as u32).unwrap_or('x')).collect(),
        3 => (0..r.below(8)).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
        4 => "long ".repeat(r.below(2000)),
        _ => gen_text(r, 12, 12),
    }
}

fn gen_number(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(*r.pick(&[0i64, 1, -1, 2147483647, -2147483648, i64::MAX, i64::MIN])),
        1 => json!(r.next()),
        2 => json!(*r.pick(&[0.5f64, -0.0, 1.5e300, 1e-300, 1e21, 123456789.25])),
        3 => json!(r.next() as i64),
        _ => json!(r.below(1000)),
    }
}

pub fn gen_value(r: &mut Rng, depth: usize) -> Value {
    match if depth == 0 { r.below(5) } else { r.below(8) } {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => gen_number(r),
        3 | 4 => json!(gen_string(r)),
        5 | 6 => Value::Array((0..r.below(5)).map(|_| gen_value(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(5) {
                let k = match r.below(3) {
                    0 => (*r.pick(&["jsonrpc", "id", "method", "params", "result", "error", "code", "message", "data"])).to_string(),
                    _ => gen_string(r),
                };
                m.insert(k, gen_value(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn gen_id(r: &mut Rng) -> Id {
    match r.below(5) {
        0 => Id::Null,
        1 => Id::String(gen_string(r)),
        2 => Id::Number(*r.pick(&[0, 1, -1, i32::MAX, i32::MIN])),
        3 => Id::String((*r.pick(&["", "0", "null", "1"])).to_string()),
        _ => Id::Number(r.next() as i32),
    }
}

fn id_value(id: &Id) -> Value {
    match id {
        Id::Number(n) => json!(n),
        Id::String(s) => json!(s),
        Id::Null => Value::Null,
    }
}

fn one_line(line: &str, what: &str) -> Result<Map<String, Value>, String> {
    if line.contains('\n') || line.contains('\r') {
        return Err(format!("{} is encoded on more than one line: {:?}", what, line));
    }
    match serde_json::from_str::<Value>(line) {
        Ok(Value::Object(m)) => {
            if m.get("jsonrpc") != Some(&json!("2.0")) {
                return Err(format!("{}: no JSON-RPC version in {:?}", what, line));
            }
            Ok(m)
        }
        other => Err(format!("{}: not a JSON object: {:?} ({:?})", what, line, other)),
    }
}

fn keys_are(m: &Map<String, Value>, want: &[&str], what: &str) -> Result<(), String> {
    let mut have: Vec<&str> = m.keys().map(String::as_str).collect();
    have.sort_unstable();
    let mut want = want.to_vec();
    want.sort_unstable();
    if have != want {
        return Err(format!("{} is encoded with the members {:?}, expected {:?}", what, have, want));
    }
    Ok(())
}

/// a message, null parameters being the same as none
fn normal(line: &str) -> Option<Value> {
    let mut v: Value = serde_json::from_str(line).ok()?;
    let m = v.as_object_mut()?;
    if m.get("params") == Some(&Value::Null) {
        m.remove("params");
    }
    Some(v)
}

/// null parameters mean no parameters
fn params_of(v: &Value) -> Option<Value> {
    if v.is_null() {
        None
    } else {
        Some(v.clone())
    }
}

fn same_params<E: std::fmt::Display>(got: Result<Option<Value>, E>, want: &Option<Value>, what: &str) -> CaseResult {
    match got {
        Ok(g) => {
            let g = g.and_then(|v| params_of(&v));
            if g != *want {
                return Err(format!("{}: parameters {:?} decoded as {:?}", what, want, g));
            }
            Ok(())
        }
        Err(e) => Err(format!("{}: parameters {:?} not readable: {}", what, want, e)),
    }
}

fn request_trip(req: &Request, id: &Id, method: &str, params: &Option<Value>, ctx: &mut Ctx) -> CaseResult {
    let line = req.to_string();
    let what = format!("request {:?} {:?} {:?}", id, method, params);
    let m = one_line(&line, &what)?;
    if m.get("id") != Some(&id_value(id)) || m.get("method") != Some(&json!(method)) {
        return Err(format!("{} is encoded as {:?}", what, line));
    }
    if m.get("params").cloned().and_then(|v| params_of(&v)) != *params {
        return Err(format!("{} is encoded with other parameters: {:?}", what, line));
    }
    if m.keys().any(|k| !["jsonrpc", "id", "method", "params"].contains(&k.as_str())) {
        return Err(format!("{} is encoded with unexpected members: {:?}", what, line));
    }
    let dec: Request = line.parse().map_err(|e| format!("{}: {:?} refused: {}", what, line, e))?;
    if dec.id != *id || dec.method != method {
        return Err(format!("{} decoded as {:?} {:?}", what, dec.id, dec.method));
    }
    same_params(dec.params::<Value>(), params, &what)?;
    if normal(&dec.to_string()) != normal(&line) {
        return Err(format!("{}: encoded again as {:?}", what, dec.to_string()));
    }
    ctx.count("requests");
    ctx.distinct(hash_str(&line));
    Ok(())
}

fn notification_trip(n: &Notification, method: &str, params: &Option<Value>, ctx: &mut Ctx) -> CaseResult {
    let line = n.to_string();
    let what = format!("notification {:?} {:?}", method, params);
    let m = one_line(&line, &what)?;
    if m.get("method") != Some(&json!(method))
        || m.get("params").cloned().and_then(|v| params_of(&v)) != *params
        || m.keys().any(|k| !["jsonrpc", "method", "params"].contains(&k.as_str()))
    {
        return Err(format!("{} is encoded as {:?}", what, line));
    }
    let dec: Notification = line.parse().map_err(|e| format!("{}: {:?} refused: {}", what, line, e))?;
    if dec.method != method {
        return Err(format!("{} decoded as {:?}", what, dec.method));
    }
    same_params(dec.params::<Value>(), params, &what)?;
    let ev: ClientEvent = line.parse().map_err(|e| format!("{}: {:?} refused as an event: {}", what, line, e))?;
    match &ev {
        ClientEvent::Notification(d) if ev.is_notification() && !ev.is_response() => {
            if d.method != method {
                return Err(format!("{} decoded as the event {:?}", what, ev));
            }
            same_params(d.params::<Value>(), params, &what)?;
        }
        _ => return Err(format!("{} is taken for a response", what)),
    }
    if normal(&ev.to_string()) != normal(&line) || normal(&dec.to_string()) != normal(&line) {
        return Err(format!("{}: encoded again as {:?}", what, ev.to_string()));
    }
    if line.parse::<Response>().is_ok() {
        return Err(format!("{}: {:?} is accepted as a response", what, line));
    }
    ctx.count("notifications");
    ctx.distinct(hash_str(&line));
    Ok(())
}

fn read_response(resp: &Response, id: &Id, want: &Result<Value, Value>, what: &str) -> CaseResult {
    if resp.id != *id {
        return Err(format!("{}: identifier decoded as {:?}", what, resp.id));
    }
    let got = resp.result::<Value>().map_err(|e| format!("{}: result not readable: {}", what, e))?;
    let got = match got {
        Ok(v) => Ok(v),
        Err(e) => Err(serde_json::from_str::<Value>(&e.to_string()).map_err(|e| format!("{}: error not readable: {}", what, e))?),
    };
    if got != *want {
        return Err(format!("{}: decoded as {:?}", what, got));
    }
    Ok(())
}

fn response_trip(resp: &Response, id: &Id, want: &Result<Value, Value>, ctx: &mut Ctx) -> CaseResult {
    let line = resp.to_string();
    let what = format!("response {:?} {:?}", id, want);
    read_response(resp, id, want, &format!("{} (before encoding)", what))?;
    let m = one_line(&line, &what)?;
    match want {
        Ok(v) => {
            keys_are(&m, &["jsonrpc", "id", "result"], &what)?;
            if m["result"] != *v {
                return Err(format!("{} is encoded as {:?}", what, line));
            }
        }
        Err(e) => {
            keys_are(&m, &["jsonrpc", "id", "error"], &what)?;
            if m["error"]["code"] != e["code"] || m["error"]["message"] != e["message"] || m["error"].get("data").cloned().unwrap_or(Value::Null) != e["data"] {
                return Err(format!("{} is encoded as {:?}", what, line));
            }
        }
    }
    if m["id"] != id_value(id) {
        return Err(format!("{} is encoded as {:?}", what, line));
    }
    let dec: Response = line.parse().map_err(|e| format!("{}: {:?} refused: {}", what, line, e))?;
    read_response(&dec, id, want, &what)?;
    let ev: ClientEvent = line.parse().map_err(|e| format!("{}: {:?} refused as an event: {}", what, line, e))?;
    match &ev {
        ClientEvent::Response(d) if ev.is_response() && !ev.is_notification() => read_response(d, id, want, &what)?,
        _ => return Err(format!("{} is taken for a notification", what)),
    }
    if normal(&ev.to_string()) != normal(&line) || normal(&dec.to_string()) != normal(&line) {
        return Err(format!("{}: encoded again as {:?}", what, ev.to_string()));
    }
    if line.parse::<Notification>().is_ok() || line.parse::<Request>().is_ok() {
        return Err(format!("{}: {:?} is accepted as something else", what, line));
    }
    ctx.count(if want.is_ok() { "results" } else { "errors" });
    ctx.distinct(hash_str(&line));
    Ok(())
}

fn gen_error(r: &mut Rng) -> (Error, Value) {
    let s = gen_string(r);
    match r.below(6) {
        0 => (Error::invalid_request(&s), json!({"code": -32600, "data": s})),
        1 => (Error::method_not_found(&s), json!({"code": -32601, "data": s})),
        2 => (Error::invalid_params(&s), json!({"code": -32602, "data": s})),
        3 => (Error::internal_error(&s), json!({"code": -32603, "data": s})),
        _ => {
            let code = r.next() as i32;
            let data = if r.chance(1, 4) { None } else { Some(gen_value(r, 2)) };
            let e = Error::new::<Value, _>(code, s.clone(), data.clone()).unwrap();
            (e, json!({"code": code, "message": s, "data": data}))
        }
    }
}

fn typed_messages(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let id = gen_id(r);
    let (a, b) = (gen_string(r), gen_string(r));
    let flag = r.chance(1, 2);
    match r.below(11) {
        0 => request_trip(&requests::Edit::new(id.clone(), requests::EditParams { name: a.clone(), scratch: flag }), &id, "edit", &Some(json!({"name": a, "scratch": flag})), ctx),
        1 => request_trip(&requests::Quit::new_noarg(id.clone()), &id, "quit", &None, ctx),
        2 => request_trip(&requests::View::new(id.clone(), a.clone()), &id, "view", &Some(json!(a)), ctx),
        3 => request_trip(&requests::ViewDelete::new_noarg(id.clone()), &id, "view-delete", &None, ctx),
        4 => request_trip(&requests::ViewAdd::new(id.clone(), a.clone()), &id, "view-add", &Some(json!(a)), ctx),
        5 => request_trip(&requests::ViewRemove::new(id.clone(), a.clone()), &id, "view-remove", &Some(json!(a)), ctx),
        6 => request_trip(&requests::Menu::new(id.clone(), requests::MenuParams { command: a.clone(), search: b.clone() }), &id, "menu", &Some(json!({"command": a, "search": b})), ctx),
        7 => request_trip(&requests::MenuSelect::new(id.clone(), requests::MenuSelectParams { command: a.clone(), choice: b.clone() }), &id, "menu-select", &Some(json!({"command": a, "choice": b})), ctx),
        8 => request_trip(&requests::Exec::new(id.clone(), a.clone()), &id, "exec", &Some(json!(a)), ctx),
        9 => {
            let n = notifications::Info::new(notifications::InfoParams { client: a.clone(), session: b.clone(), cwd: a.clone() });
            notification_trip(&n, "info", &Some(json!({"client": a, "session": b, "cwd": a})), ctx)
        }
        _ => {
            let idx = r.next() as isize;
            let n = notifications::Status::new(vec![notifications::StatusParamsItem { index: idx, text: a.as_str().into() }]);
            // the encoding of a text is the library's: only its decoding is judged
            let line = n.to_string();
            let m = one_line(&line, "status notification")?;
            notification_trip(&n, "status", &params_of(&m["params"]), ctx)?;
            let dec: Notification = line.parse().map_err(|e| format!("{}", e))?;
            let items: notifications::StatusParams = dec.params().map_err(|e| format!("status not readable: {}", e))?.ok_or("no params")?;
            let text: String = items.iter().map(|i| i.text.plain()).collect();
            if items.len() != 1 || items[0].index != idx || text != a {
                return Err(format!("status ({}, {:?}) decoded as {:?}", idx, a, items));
            }
            Ok(())
        }
    }
}

pub fn gen_face_text(r: &mut Rng) -> Text {
    let faces = [Face::Default, Face::Error, Face::Match, Face::Prompt, Face::Selection];
    let mut frags: Vec<TextFragment> = Vec::new();
    for _ in 0..r.below(5) {
        let face = r.pick(&faces).clone();
        let text = match (r.below(10), frags.last()) {
            (0, _) => face.to_string(),
            (1, Some(f)) => f.text.clone(),
            _ => gen_string(r),
        };
        frags.push(TextFragment { text, face });
    }
    frags.into()
}

fn shown<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x)
}

/// typed parameters with faces, compared as values and not as encodings
fn typed_notification<T>(n: &Notification, method: &str, want: &str, ctx: &mut Ctx) -> CaseResult
where
    T: serde::de::DeserializeOwned + std::fmt::Debug,
{
    let line = n.to_string();
    let m = one_line(&line, method)?;
    notification_trip(n, method, &params_of(m.get("params").unwrap_or(&Value::Null)), ctx)?;
    let dec: Notification = line.parse().map_err(|e| format!("{:?} refused: {}", line, e))?;
    let got: T = dec
        .params()
        .map_err(|e| format!("{} notification {:?} not readable: {}", method, line, e))?
        .ok_or_else(|| format!("{} notification {:?} without parameters", method, line))?;
    if shown(&got) != want {
        return Err(format!("{} notification {} decoded as {}", method, want, shown(&got)));
    }
    ctx.count("typed_notifications");
    Ok(())
}

fn faces(r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    match r.below(4) {
        0 => {
            let t = gen_face_text(r);
            let want = shown(&t);
            typed_notification::<Text>(&notifications::Echo::new(t), "echo", &want, ctx)
        }
        1 => {
            let p = notifications::HintParams {
                text: (0..r.below(4)).map(|_| gen_face_text(r)).collect(),
            };
            let want = shown(&p);
            typed_notification::<notifications::HintParams>(&notifications::Hint::new(p), "hint", &want, ctx)
        }
        2 => {
            let entries: Vec<notifications::MenuParamsEntry> = (0..r.below(4))
                .map(|_| notifications::MenuParamsEntry {
                    value: gen_string(r),
                    text: gen_face_text(r),
                    description: if r.chance(1, 2) { None } else { Some(gen_string(r)) },
                })
                .collect();
            let (c, t, s) = (gen_string(r), gen_string(r), gen_string(r));
            let want = format!("{:?} {:?} {:?} {:?}", c, t, s, entries);
            let n = notifications::Menu::new(notifications::MenuParams {
                command: c,
                title: t,
                search: s,
                entries,
            });
            let line = n.to_string();
            let m = one_line(&line, "menu")?;
            notification_trip(&n, "menu", &params_of(&m["params"]), ctx)?;
            let dec: Notification = line.parse().map_err(|e| format!("{:?} refused: {}", line, e))?;
            let p: notifications::MenuParams = dec
                .params()
                .map_err(|e| format!("menu {:?} not readable: {}", line, e))?
                .ok_or("menu without parameters")?;
            let got = format!("{:?} {:?} {:?} {:?}", p.command, p.title, p.search, p.entries);
            if got != want {
                return Err(format!("menu {} decoded as {}", want, got));
            }
            Ok(())
        }
        _ => {
            let p: notifications::ViewParams = (0..r.below(4))
                .map(|_| notifications::ViewParamsItem {
                    buffer: gen_string(r),
                    start: r.below(1000),
                    end: r.next() as usize >> r.below(64),
                    lenses: (0..r.below(3))
                        .map(|_| notifications::ViewParamsLens {
                            lines: (0..r.below(4)).map(|_| gen_face_text(r)).collect(),
                            first_line_num: r.below(5000),
                        })
                        .collect(),
                })
                .collect();
            let want = shown(&p);
            typed_notification::<notifications::ViewParams>(&notifications::View::new(p), "view", &want, ctx)
        }
    }
}

/// equal, up to the last digits of floating point numbers
pub fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(0.0));
            x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs())
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| close(v, w)))
        }
        _ => a == b,
    }
}

/// what a text is, judged on a generic JSON reading of it
fn valid_id(v: Option<&Value>) -> Option<bool> {
    match v {
        None => Some(false),
        Some(Value::Null) | Some(Value::String(_)) => Some(true),
        Some(Value::Number(n)) => match n.as_i64() {
            Some(i) if i32::try_from(i).is_ok() => Some(true),
            // beyond what identifiers can express
            _ => None,
        },
        Some(_) => Some(false),
    }
}

fn expect(accepted: bool, want: Option<bool>, what: &str, text: &str) -> CaseResult {
    match want {
        Some(w) if w != accepted => Err(format!("{:?} is {} as {}", text, if accepted { "accepted" } else { "refused" }, what)),
        _ => Ok(()),
    }
}

fn judge_text(text: &str, ctx: &mut Ctx) -> CaseResult {
    let req = text.parse::<Request>();
    let notif = text.parse::<Notification>();
    let resp = text.parse::<Response>();
    let ev = text.parse::<ClientEvent>();
    ctx.count("texts");
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        // JSON, but beyond what the generic reading can represent
        Err(e) if e.to_string().contains("number out of range") || e.to_string().contains("recursion limit") => return Ok(()),
        Err(_) => {
            ctx.count("not_json");
            expect(req.is_ok(), Some(false), "a request", text)?;
            expect(notif.is_ok(), Some(false), "a notification", text)?;
            expect(resp.is_ok(), Some(false), "a response", text)?;
            return expect(ev.is_ok(), Some(false), "an event", text);
        }
    };
    let Value::Object(m) = v else {
        // arrays are read as sequences of members by the decoder: only scalars are judged
        if !v.is_array() {
            expect(req.is_ok() || notif.is_ok() || resp.is_ok() || ev.is_ok(), Some(false), "a message", text)?;
        }
        return Ok(());
    };
    ctx.count("objects");
    let version = match m.get("jsonrpc") {
        Some(Value::String(s)) if s == "2.0" => Some(true),
        Some(Value::String(_)) => None,
        _ => Some(false),
    };
    let and = |a: Option<bool>, b: Option<bool>| match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    };
    let id = valid_id(m.get("id"));
    let method = Some(m.get("method").map_or(false, Value::is_string));
    expect(req.is_ok(), and(and(version, id), method), "a request", text)?;
    let both = m.contains_key("id") && m.contains_key("method");
    if !both {
        let result = m.get("result").map_or(false, |v| !v.is_null());
        let null_result = m.get("result") == Some(&Value::Null);
        let error = match m.get("error") {
            None | Some(Value::Null) => Some(false),
            Some(Value::Object(e)) => {
                let code = match e.get("code") {
                    Some(Value::Number(n)) => match n.as_i64() {
                        Some(i) if i32::try_from(i).is_ok() => Some(true),
                        _ => None,
                    },
                    _ => Some(false),
                };
                let msg = Some(e.get("message").map_or(false, Value::is_string));
                match and(code, msg) {
                    Some(true) => Some(true),
                    _ => None,
                }
            }
            _ => None,
        };
        // exactly one of result and error
        let body = match error {
            None => None,
            Some(true) => {
                if null_result {
                    None
                } else {
                    Some(!result)
                }
            }
            Some(false) => {
                if m.contains_key("error") {
                    None
                } else {
                    Some(result || null_result)
                }
            }
        };
        let want_resp = and(and(version, id), body);
        expect(resp.is_ok(), want_resp, "a response", text)?;
        let want_notif = and(version, method);
        if !m.contains_key("id") {
            expect(notif.is_ok(), want_notif, "a notification", text)?;
            expect(ev.is_ok(), want_notif, "an event", text)?;
            if let Ok(e) = &ev {
                if !e.is_notification() {
                    return Err(format!("{:?} is taken for a response", text));
                }
            }
        } else {
            expect(notif.is_ok(), Some(false), "a notification", text)?;
            expect(ev.is_ok(), want_resp, "an event", text)?;
            if let Ok(e) = &ev {
                if !e.is_response() {
                    return Err(format!("{:?} is taken for a notification", text));
                }
            }
        }
    }
    for (name, present, encoded) in [
        ("request", req.is_ok(), req.as_ref().ok().map(|x| x.to_string())),
        ("notification", notif.is_ok(), notif.as_ref().ok().map(|x| x.to_string())),
        ("response", resp.is_ok(), resp.as_ref().ok().map(|x| x.to_string())),
        ("event", ev.is_ok(), ev.as_ref().ok().map(|x| x.to_string())),
    ] {
        if !present {
            continue;
        }
        ctx.count("accepted");
        let e = encoded.unwrap_or_default();
        let back: Value = serde_json::from_str(&e).map_err(|x| format!("{:?} accepted as a {} is encoded as {:?}: {}", text, name, e, x))?;
        for k in ["id", "method", "params", "result"] {
            if name == "notification" && k == "id" || name != "response" && name != "event" && k == "result" {
                continue;
            }
            if (name == "response") && (k == "method" || k == "params") || name == "event" && both {
                continue;
            }
            if name == "event" && (k == "params" || k == "method") && ev.as_ref().map_or(false, ClientEvent::is_response) {
                continue;
            }
            if name == "event" && k == "result" && ev.as_ref().map_or(false, ClientEvent::is_notification) {
                continue;
            }
            let (a, b) = (m.get(k).cloned().unwrap_or(Value::Null), back.get(k).cloned().unwrap_or(Value::Null));
            if !close(&a, &b) {
                return Err(format!("{:?} accepted as a {} is encoded as {:?}: {} differs", text, name, e, k));
            }
        }
    }
    Ok(())
}

/// an object made of members that look right or nearly so
fn gen_object(r: &mut Rng) -> Value {
    let mut m = Map::new();
    if !r.chance(1, 12) {
        let v = match r.below(8) {
            0 => gen_value(r, 1),
            1 => json!("1.0"),
            _ => json!("2.0"),
        };
        m.insert("jsonrpc".into(), v);
    }
    if r.chance(1, 2) {
        let v = match r.below(5) {
            0 => gen_value(r, 1),
            1 => Value::Null,
            2 => json!(gen_string(r)),
            _ => json!(r.next() as i32),
        };
        m.insert("id".into(), v);
    }
    if r.chance(1, 2) {
        let v = if r.chance(1, 6) { gen_value(r, 1) } else { json!(gen_string(r)) };
        m.insert("method".into(), v);
    }
    if r.chance(1, 2) {
        m.insert("params".into(), gen_value(r, 3));
    }
    if r.chance(1, 3) {
        m.insert("result".into(), gen_value(r, 3));
    }
    if r.chance(1, 3) {
        let v = if r.chance(1, 4) {
            gen_value(r, 2)
        } else {
            let mut e = json!({"code": r.next() as i32, "message": gen_string(r), "data": gen_value(r, 2)});
            if r.chance(1, 4) {
                let k = *r.pick(&["code", "message", "data"]);
                e.as_object_mut().unwrap().remove(k);
            }
            e
        };
        m.insert("error".into(), v);
    }
    if r.chance(1, 8) {
        m.insert(gen_string(r), gen_value(r, 2));
    }
    Value::Object(m)
}

fn mutate(r: &mut Rng, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 3) {
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        match r.below(5) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *r.pick(&['{', '}', '"', ',', ':', '[', ']', '0', 'e', '-', ' ', '\u{0}', 'é', '\\'])),
            2 => cs.truncate(i),
            3 => {
                let j = r.below(cs.len());
                cs.swap(i, j);
            }
            _ => {
                let c = cs[i];
                cs.insert(i, c);
            }
        }
    }
    cs.into_iter().collect()
}

/// serde refuses repeated members, a generic reading keeps the last: such texts are not judged
fn repeated(text: &str) -> bool {
    ["jsonrpc", "id", "method", "params", "result", "error", "code", "message", "data"]
        .iter()
        .any(|k| text.matches(&format!("\"{}\"", k)).count() > 1)
        || text.contains("\\u")
}

impl Check for C22Check {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a case is 40 messages (every request and notification of the protocol, free ones, successful and failed responses) encoded, read back generically and by the decoders, and 60 texts (well-formed objects with right, wrong or missing members, mutated encodings, arbitrary text) judged against a generic JSON reading; distinct by encoded text"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000,
            Tier::Thorough => 300_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["requests", "notifications", "results", "errors", "texts", "not_json", "objects", "accepted", "typed_notifications"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["serde_json's generic reading is the reference for what is JSON", "the last digits of floating point numbers, identifiers beyond 32 bits and texts with repeated members are not judged"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        for _ in 0..40 {
            match r.below(7) {
                0 | 1 => typed_messages(r, ctx)?,
                6 => faces(r, ctx)?,
                2 => {
                    let (id, method, params) = (gen_id(r), gen_string(r), gen_value(r, 3));
                    let given = if r.chance(1, 5) { None } else { Some(params) };
                    let req = Request::new::<Value, _, _>(id.clone(), method.clone(), given.clone()).map_err(|e| e.to_string())?;
                    request_trip(&req, &id, &method, &given.and_then(|v| params_of(&v)), ctx)?;
                }
                3 => {
                    let (method, params) = (gen_string(r), gen_value(r, 3));
                    let given = if r.chance(1, 5) { None } else { Some(params) };
                    let n = Notification::new::<Value, _, _>(method.clone(), given.clone()).map_err(|e| e.to_string())?;
                    notification_trip(&n, &method, &given.and_then(|v| params_of(&v)), ctx)?;
                }
                4 => {
                    let (id, v) = (gen_id(r), gen_value(r, 3));
                    let resp = match r.below(4) {
                        0 => Response::success(id.clone(), Some(v.clone())).map_err(|e| e.to_string())?,
                        1 => {
                            let mut x = Response::invalid_request(id.clone(), "x");
                            x.set_result(Ok(v.clone())).map_err(|e| e.to_string())?;
                            x
                        }
                        _ => Response::new(id.clone(), Ok(v.clone())).map_err(|e| e.to_string())?,
                    };
                    response_trip(&resp, &id, &Ok(v), ctx)?;
                    let none = Response::new(id.clone(), Ok(())).map_err(|e| e.to_string())?;
                    response_trip(&none, &id, &Ok(Value::Null), ctx)?;
                }
                _ => {
                    let id = gen_id(r);
                    let s = gen_string(r);
                    let (resp, want) = match r.below(6) {
                        0 => (Response::invalid_request(id.clone(), &s), json!({"code": -32600, "data": s})),
                        1 => (Response::method_not_found(id.clone(), &s), json!({"code": -32601, "data": s})),
                        2 => (Response::invalid_params(id.clone(), &s), json!({"code": -32602, "data": s})),
                        _ => {
                            let (e, want) = gen_error(r);
                            let mut x = Response::new(id.clone(), Err::<(), _>(e.clone())).map_err(|e| e.to_string())?;
                            if r.chance(1, 3) {
                                x = Response::new(id.clone(), Ok(json!([1]))).map_err(|e| e.to_string())?;
                                x.set_result(Err::<(), _>(e)).map_err(|e| e.to_string())?;
                            }
                            (x, want)
                        }
                    };
                    // the wording of the standard errors is not specified
                    let mut want = want;
                    if want.get("message").is_none() {
                        let m: Value = serde_json::from_str(&resp.to_string()).map_err(|e| e.to_string())?;
                        want["message"] = m["error"]["message"].clone();
                    }
                    response_trip(&resp, &id, &Err(want), ctx)?;
                }
            }
        }
        for _ in 0..60 {
            let mut text = match r.below(6) {
                0 => gen_string(r),
                1 => gen_value(r, 3).to_string(),
                _ => gen_object(r).to_string(),
            };
            if r.chance(1, 3) {
                text = mutate(r, &text);
            }
            if repeated(&text) {
                // still must not crash
                let _ = (text.parse::<Request>(), text.parse::<ClientEvent>(), text.parse::<Response>(), text.parse::<Notification>());
                ctx.count("repeated_members");
                continue;
            }
            ctx.log(text.clone());
            judge_text(&text, ctx)?;
        }
        // deep nesting must be refused, not overflow
        if r.chance(1, 20) {
            let n = r.range(100, 20_000);
            let text = format!("{{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":{}{}}}", "[".repeat(n), "]".repeat(n));
            let _ = (text.parse::<Request>(), text.parse::<ClientEvent>());
            ctx.count("deep_texts");
        }
        Ok(())
    }
}
