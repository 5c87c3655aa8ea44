//! Captured log records, and markers to search for in them.
#[path = "marker.rs"]
mod marker;
pub use marker::Marker;

use std::sync::Mutex;

use tracing::{field::Visit, span, Event, Metadata, Subscriber};

pub static RECORDS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub struct Capture;
struct Fields<'a>(&'a mut String);
impl Visit for Fields<'_> {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        *self.0 += &format!("{}={value:?} {}={value:#?} ", field.name(), field.name());
    }
}
impl Subscriber for Capture {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut s = format!("span {} ", a.metadata().name());
        a.record(&mut Fields(&mut s));
        RECORDS.lock().unwrap().push(s);
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        let mut s = String::from("span record ");
        v.record(&mut Fields(&mut s));
        RECORDS.lock().unwrap().push(s);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = format!("{} {} ", e.metadata().level(), e.metadata().target());
        e.record(&mut Fields(&mut s));
        RECORDS.lock().unwrap().push(s);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
