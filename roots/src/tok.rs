use crate::env::*;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::tokenizer::*;

pub fn root_tokenize(s: String) -> Vec<JsonToken<Global>> {
    tokenize(GLOBAL, s)
}

/// pulling tokens one at a time from an arbitrary character iterator; three more pulls
/// after the end must all report the end
pub fn root_stream() {
    let mut it = TokenizerStateIterator::new(GLOBAL, Chars);
    while let Some(t) = it.next() {
        emit(t);
    }
    mark(0);
    if it.next().is_some() {
        mark(1);
    }
    if it.next().is_some() {
        mark(1);
    }
}

/// pushing characters one at a time
pub fn root_push() {
    let mut state: TokenizerState<Global> = Default::default();
    let maps = create_transition_maps();
    while let Some(c) = env_char() {
        for t in state.push_mut(GLOBAL, c, &maps) {
            emit(t);
        }
    }
}
