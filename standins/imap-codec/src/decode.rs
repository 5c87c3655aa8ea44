//! Decoding of messages.
use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};

use crate::{
    parse::{self, Fail},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};

pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;

    fn decode<'a>(&self, input: &'a [u8])
        -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;

    fn decode_static<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        let (remaining, value) = self.decode(input).map_err(IntoBoundedStatic::into_static)?;
        Ok((remaining, value.into_static()))
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum GreetingDecodeError {
    Incomplete,
    Failed,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandDecodeError<'a> {
    Incomplete,
    LiteralFound {
        tag: Tag<'a>,
        length: u32,
        mode: LiteralMode,
    },
    Failed,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum AuthenticateDataDecodeError {
    Incomplete,
    Failed,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum ResponseDecodeError {
    Incomplete,
    LiteralFound { length: u32 },
    Failed,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum IdleDoneDecodeError {
    Incomplete,
    Failed,
}

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'static>> {
        parse::run(input, |p| p.greeting()).map_err(|e| match e {
            Fail::Incomplete => GreetingDecodeError::Incomplete,
            _ => GreetingDecodeError::Failed,
        })
    }
}

impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>> {
        parse::run(input, |p| p.command()).map_err(|e| match e {
            Fail::Incomplete => CommandDecodeError::Incomplete,
            Fail::Literal { length, mode } => {
                let (_, tag) = parse::run(input, |p| p.tag()).unwrap();
                CommandDecodeError::LiteralFound { tag, length, mode }
            }
            Fail::Failed => CommandDecodeError::Failed,
        })
    }
}

impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'static>> {
        parse::run(input, |p| p.authenticate_data()).map_err(|e| match e {
            Fail::Incomplete => AuthenticateDataDecodeError::Incomplete,
            _ => AuthenticateDataDecodeError::Failed,
        })
    }
}

impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'static>> {
        parse::run(input, |p| p.response()).map_err(|e| match e {
            Fail::Incomplete => ResponseDecodeError::Incomplete,
            Fail::Literal { length, .. } => ResponseDecodeError::LiteralFound { length },
            Fail::Failed => ResponseDecodeError::Failed,
        })
    }
}

impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'static>> {
        parse::run(input, |p| p.idle_done()).map_err(|e| match e {
            Fail::Incomplete => IdleDoneDecodeError::Incomplete,
            _ => IdleDoneDecodeError::Failed,
        })
    }
}

#[allow(unused)]
fn assert_static(e: &CommandDecodeError) {
    let _: CommandDecodeError<'static> = e.to_static();
}
