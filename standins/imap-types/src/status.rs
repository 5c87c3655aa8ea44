use bounded_static::ToStatic;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum StatusDataItemName {
    Messages,
    Recent,
    UidNext,
    UidValidity,
    Unseen,
}
impl StatusDataItemName {
    pub const ALL: [Self; 5] = [
        Self::Messages,
        Self::Recent,
        Self::UidNext,
        Self::UidValidity,
        Self::Unseen,
    ];
    pub fn wire(&self) -> &'static str {
        match self {
            Self::Messages => "MESSAGES",
            Self::Recent => "RECENT",
            Self::UidNext => "UIDNEXT",
            Self::UidValidity => "UIDVALIDITY",
            Self::Unseen => "UNSEEN",
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusDataItem {
    pub name: StatusDataItemName,
    pub value: u32,
}
