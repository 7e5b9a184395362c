//! Sessions of actions on a document.
use oxvg_actions::{Action, Actor};
use oxvg_ast::{
    element::Element,
    serialize::Node as _,
    xmlwriter::{Options, Space},
};
use serde_json::{Value, json};

use crate::{Outcome, attempt, text, with_dom};

fn action(value: &Value) -> Result<Action<'static>, String> {
    let list = value.as_array().ok_or("not a list")?;
    let name = list[0].as_str().ok_or("no name")?;
    let arg = |i: usize| list.get(i).and_then(Value::as_str).unwrap_or("").to_string().into();
    let maybe = |i: usize| list.get(i).and_then(Value::as_f64).map(|n| n as f32);
    let number = |i: usize| maybe(i).unwrap_or(0.0);
    Ok(match name {
        "attr" => Action::Attr { name: arg(1), value: arg(2) },
        "class" => Action::Class(arg(1)),
        "style" => Action::Style { property: arg(1), value: arg(2) },
        "path-intersect" => Action::PathIntersect,
        "path-union" => Action::PathUnion,
        "path-subtract" => Action::PathSubtract,
        "path-xor" => Action::PathXor,
        "matrix" => Action::Matrix(number(1), number(2), number(3), number(4), number(5), number(6)),
        "translate" => Action::Translate(number(1), maybe(2)),
        "scale" => Action::Scale(number(1), maybe(2)),
        "rotate" => Action::Rotate(number(1), maybe(2).zip(maybe(3))),
        "skewX" => Action::SkewX(number(1)),
        "skewY" => Action::SkewY(number(1)),
        "insert" => Action::Insert(arg(1)),
        "forget" => Action::Forget,
        "select" => Action::Select(arg(1)),
        "select-more" => Action::SelectMore(arg(1)),
        "deselect" => Action::Deselect,
        _ => return Err(format!("no such action: {name}")),
    })
}

/// The form in which actions are given to `action`
fn describe(action: &Action) -> Value {
    match action {
        Action::Attr { name, value } => json!(["attr", name.as_str(), value.as_str()]),
        Action::Class(name) => json!(["class", name.as_str()]),
        Action::Style { property, value } => json!(["style", property.as_str(), value.as_str()]),
        Action::PathIntersect => json!(["path-intersect"]),
        Action::PathUnion => json!(["path-union"]),
        Action::PathSubtract => json!(["path-subtract"]),
        Action::PathXor => json!(["path-xor"]),
        Action::Matrix(a, b, c, d, e, f) => json!(["matrix", a, b, c, d, e, f]),
        Action::Translate(x, None) => json!(["translate", x]),
        Action::Translate(x, Some(y)) => json!(["translate", x, y]),
        Action::Scale(x, None) => json!(["scale", x]),
        Action::Scale(x, Some(y)) => json!(["scale", x, y]),
        Action::Rotate(angle, None) => json!(["rotate", angle]),
        Action::Rotate(angle, Some((x, y))) => json!(["rotate", angle, x, y]),
        Action::SkewX(angle) => json!(["skewX", angle]),
        Action::SkewY(angle) => json!(["skewY", angle]),
        Action::Insert(name) => json!(["insert", name.as_str()]),
        Action::Forget => json!(["forget"]),
        Action::Select(query) => json!(["select", query.as_str()]),
        Action::SelectMore(query) => json!(["select-more", query.as_str()]),
        Action::Deselect => json!(["deselect"]),
    }
}

fn keep_space() -> Options {
    Options {
        trim_whitespace: Space::Never,
        ..Options::default()
    }
}

/// The document parsed and written again until writing it changes nothing more
fn settle(source: &str) -> Result<String, String> {
    let mut text = source.to_string();
    for _ in 0..4 {
        let next = with_dom(&text, |dom, _| {
            dom.serialize_with_options(keep_space())
                .map_err(|err| err.to_string())
        })?;
        if next == text {
            return Ok(text);
        }
        text = next;
    }
    Err("does not settle".into())
}

/// The document as it would be saved, without changing it
fn document(actor: &Actor) -> Result<String, String> {
    let text = actor
        .root
        .serialize_with_options(keep_space())
        .map_err(|err| err.to_string())?;
    Ok(settle(&text).unwrap_or(text))
}

/// The way from the root to an element, as the positions among the elements of each parent
fn path_of(element: Element) -> String {
    let mut path = vec![];
    let mut at = element;
    loop {
        let mut n = 0;
        let mut sibling = at.previous_element_sibling();
        while let Some(e) = sibling {
            n += 1;
            sibling = e.previous_element_sibling();
        }
        path.push(n.to_string());
        match Element::parent_element(&at) {
            Some(parent) => at = parent,
            None => break,
        }
    }
    path.reverse();
    format!("{}/{}", element.local_name(), path.join("."))
}

fn sorted(values: impl Iterator<Item = String>) -> Vec<String> {
    let mut values: Vec<_> = values.collect();
    values.sort();
    values
}

fn state_of(actor: &Actor) -> Result<Value, String> {
    let state = actor.derive_state().map_err(|err| err.to_string())?;
    let selection: Vec<_> = state
        .selection
        .iter()
        .map(|id| {
            match actor.allocator.get(*id) {
                Some(node) => match node.element() {
                    Some(element) => path_of(element),
                    None => "not an element".into(),
                },
                None => "nothing".into(),
            }
        })
        .collect();
    Ok(json!({
        "history": state.history.iter().map(describe).collect::<Vec<_>>(),
        "selection": selection,
        "ids": state.selection,
        "element": state.info.as_ref().map(|i| format!("{:?}", i.element_id)),
        "text": state.info.as_ref().map(|i| format!("{:?}", i.text)),
        "values": state.info.as_ref().map(|i| sorted(i.attributes.values.iter().map(|(k, v)| format!("{k}={v}")))),
        "attributes": state.info.as_ref().map(|i| sorted(i.attributes.expected_attributes.iter().map(|a| a.to_string()))),
        "children": state.info.as_ref().map(|i| sorted(i.content_model.permitted_elements.iter().map(|e| e.to_string()))),
    }))
}

/// The document and the state
fn look(actor: &Actor) -> Result<Value, String> {
    Ok(json!({
        "doc": document(actor)?,
        "state": attempt(|| state_of(actor)).to_json(Value::clone),
    }))
}

/// All actions of an operation, then the document and the state
pub fn perform(op: &Value) -> Result<String, String> {
    with_dom(text(op, "doc"), |dom, allocator| {
        let mut actor = Actor::new(dom, allocator).map_err(|err| err.to_string())?;
        for a in op["actions"].as_array().unwrap() {
            actor.dispatch(action(a)?).map_err(|err| err.to_string())?;
        }
        let state = state_of(&actor)?;
        let doc = actor.snapshot().map_err(|err| err.to_string())?;
        Ok(format!("{doc}\n{state}"))
    })
}

/// A session; it is saved, dropped and resumed from the saved text after the actions in `saves`.
/// Gives the state before the first action, what each action came to and the state after it, and
/// the document as it is saved at the end.
pub fn session(case: &Value) -> Value {
    let actions = case["actions"].as_array().cloned().unwrap_or_default();
    let saves: Vec<usize> = case["saves"]
        .as_array()
        .map(|a| a.iter().filter_map(|n| n.as_u64().map(|n| n as usize)).collect())
        .unwrap_or_default();
    let mut seen = vec![];
    let mut source = text(case, "doc").to_string();
    if !case["resume"].as_bool().unwrap_or(false) {
        match attempt(|| settle(&source)) {
            Outcome::Ok(settled) => source = settled,
            other => return json!({"skip": other.to_json(|_| Value::Null)}),
        }
    }
    let mut next = 0;
    let mut last = String::new();
    let end = attempt(|| {
        loop {
            let saved = with_dom(&source, |dom, allocator| {
                let mut actor = Actor::new(dom, allocator).map_err(|err| format!("resume: {err}"))?;
                if seen.is_empty() {
                    seen.push(look(&actor)?);
                }
                while next < actions.len() {
                    let step = action(&actions[next])?;
                    let outcome = attempt(|| actor.dispatch(step).map_err(|err| err.to_string()));
                    let mut sight = look(&actor)?;
                    sight["outcome"] = outcome.to_json(|()| json!(""));
                    seen.push(sight);
                    next += 1;
                    if saves.contains(&(next - 1)) && next < actions.len() {
                        return actor.snapshot().map(Some).map_err(|err| format!("save: {err}"));
                    }
                }
                let doc = actor.snapshot().map_err(|err| format!("save: {err}"))?;
                last = doc;
                Ok(None)
            })?;
            match saved {
                Some(text) => source = text,
                None => return Ok(()),
            }
        }
    });
    let settled = match attempt(|| settle(&last)) {
        Outcome::Ok(settled) => settled,
        _ => last.clone(),
    };
    json!({"seen": seen, "saved": last, "settled": settled, "end": end.to_json(|()| json!(""))})
}
