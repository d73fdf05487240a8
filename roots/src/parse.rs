use crate::io::*;
use nanvm_lib::js::{any::Any, null::Null};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::parser::json_state::JsonState;
use nanvm_lib::parser::parser::{parse, Context};
use nanvm_lib::parser::root_state::{RootState, RootStatus};
use nanvm_lib::parser::shared::{ModuleCache, ParseError, ParseResult};

/// parsing the file `d/r` of an arbitrary file system
pub fn root_parse(path: String) -> Result<ParseResult<Global>, ParseError> {
    let io = EnvIo;
    let mut cache: ModuleCache<Global> = Default::default();
    let mut context = Context::new(GLOBAL, &io, path, &mut cache);
    parse(&mut context)
}

/// pushing one token at a time, the caller defines every import as null
pub fn root_push() -> Result<ParseResult<Global>, ParseError> {
    let mut state: JsonState<Global> = JsonState::ParseRoot(RootState {
        status: RootStatus::Initial,
        state: Default::default(),
        new_line: true,
    });
    while let Some(t) = env_token() {
        let (next, import) = state.push(GLOBAL, t);
        state = next;
        if let Some((id, path)) = import {
            env_import(path);
            if let JsonState::ParseRoot(r) = &mut state {
                r.state.consts.insert(id, Any::move_from(Null()));
            }
        }
    }
    state.end()
}
