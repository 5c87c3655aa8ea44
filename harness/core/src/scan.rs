//! Independent line/literal scanner: what is the next message (or error) at the start of `buf`?
use imap_types::core::{LiteralMode, Tag};

pub enum Decoded<M> {
    Msg(M),
    Literal { tag: Option<Tag<'static>>, length: u32, mode: LiteralMode },
    Bad,
}

pub enum Found<M> {
    Msg(M, usize),
    BareLf(usize),
    Bad(usize),
    TooLong(usize),
    /// A literal was announced by the line ending at `.0`.
    Literal { end: usize, tag: Option<Tag<'static>>, length: u32, mode: LiteralMode },
    Incomplete,
}

#[derive(Default, Clone)]
pub struct Scan {
    line_start: usize,
    literal_end: Option<usize>,
    /// Everything before this was searched for a line end already.
    searched: usize,
}

impl Scan {
    pub fn accept_literal(&mut self, end: usize, length: u32) {
        self.literal_end = Some(end + length as usize);
    }
    pub fn step<M>(
        &mut self,
        buf: &[u8],
        max: Option<usize>,
        relaxed: bool,
        decode: impl Fn(&[u8]) -> Decoded<M>,
    ) -> Found<M> {
        let window = max.map_or(buf.len(), |m| m.min(buf.len()));
        let full = max.is_some_and(|m| buf.len() >= m);
        if let Some(end) = self.literal_end {
            if window < end {
                return if full { Found::TooLong(window) } else { Found::Incomplete };
            }
            self.literal_end = None;
            self.line_start = end;
            self.searched = end;
        }
        let from = self.searched.max(self.line_start).min(window);
        let Some(lf) = buf[from..window].iter().position(|b| *b == b'\n').map(|p| p + from) else {
            self.searched = window;
            return if full { Found::TooLong(window) } else { Found::Incomplete };
        };
        let end = lf + 1;
        let has_cr = lf > self.line_start && buf[lf - 1] == b'\r';
        if !has_cr && !relaxed {
            return Found::BareLf(end);
        }
        self.line_start = end;
        self.searched = end;
        match decode(&buf[..end]) {
            Decoded::Msg(m) => Found::Msg(m, end),
            Decoded::Literal { tag, length, mode } => Found::Literal { end, tag, length, mode },
            Decoded::Bad => Found::Bad(end),
        }
    }
}
