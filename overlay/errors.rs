//! Error types used across the parsing and grammar modules.
//!
//! ParserError represents runtime parsing or VM execution errors, while
//! GrammarError captures issues in the grammar itself (missing sets, invalid
//! graph operations, etc.). These are surfaced by various APIs in this crate.

use std::fmt;

use crate::parser_data::ElementIndex;
use crate::tree::TreeError;

#[derive(Debug)]
/// Errors that can occur during parsing or while executing VM instructions.
pub enum ParserError {
    UnexpectedCharError {
        chr: char,
        pos: usize,
        expected: String,
    },
    EndOfCharsError {
        pos: usize,
    },
    GramError {
        err: GrammarError,
    },
    UnknownSpecialOperation {
        operation: String,
        pos: usize,
    },
    Impossible,
    InternalError {
        message: String,
    },
    VmError {
        message: String,
    },
    TreeError {
        err: TreeError,
    },
}

/*@ #[verifier::external] @*/
impl std::error::Error for ParserError {}

/*@ #[verifier::external] @*/
impl fmt::Display for ParserError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            ParserError::UnexpectedCharError { chr, pos, expected } => write!(
                f,
                " \"{}\" at pos {} was not expected. Expected {}",
                chr, pos, expected
            ),
            ParserError::EndOfCharsError { pos } => write!(
                f,
                "There was a char expected but there was none at pos {}",
                pos
            ),
            ParserError::UnknownSpecialOperation { operation, pos } => {
                write!(f, " \"{}\" at pos {} was not expected", operation, pos)
            }
            ParserError::GramError { .. } => write!(f, "There was a Grammar error"),
            ParserError::Impossible => write!(f, "This error should not be possible"),
            ParserError::InternalError { .. } => write!(f, "There was an internal error"),
            ParserError::VmError { .. } => write!(f, "There was a VM error"),
            ParserError::TreeError { .. } => write!(f, "There was a treeerror"),
        }
    }
}

/*@
impl vstd::std_specs::convert::FromSpecImpl<GrammarError> for ParserError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GrammarError) -> ParserError { ParserError::GramError { err: v } }
}
impl vstd::std_specs::convert::FromSpecImpl<TreeError> for ParserError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TreeError) -> ParserError { ParserError::TreeError { err: v } }
}
@*/
impl From<GrammarError> for ParserError {
    fn from(err: GrammarError) -> Self {
        ParserError::GramError { err }
    }
}
impl From<TreeError> for ParserError {
    fn from(err: TreeError) -> Self {
        ParserError::TreeError { err }
    }
}

#[derive(Debug)]
/// Errors that indicate malformed or inconsistent grammar constructs.
pub enum GrammarError {
    MissingFollowSet {
        index: ElementIndex,
    },
    MissingElementForIndex {
        index: ElementIndex,
    },
    MissingFirstSet {
        index: ElementIndex,
    },
    MissingSteuerSet {
        index: ElementIndex,
    },
    MissingProduction {
        index: ElementIndex,
    },
    LeftRecursion {
        index: ElementIndex,
    },
    SteuerSetsNotDistinct {
        steuer_terminal: String,
        steuer_char: char,
        rule_name: String,
    },
    UnexpectedElementError {
        reason: String,
        pos: usize,
    },
    GraphNodeAlreadyExistsError {
        node_name: usize,
    },
    GraphNodeDoesNotExistsError {
        node_name: usize,
    },
    GraphIndexOutOfBounds {
        index: usize,
    },
}

/*@ #[verifier::external] @*/
impl std::error::Error for GrammarError {}

/*@ #[verifier::external] @*/
impl fmt::Display for GrammarError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            GrammarError::MissingFollowSet { index } => {
                write!(f, " \"{index}\" has no followset")
            }
            GrammarError::MissingElementForIndex { index } => {
                write!(f, " \"{index}\" has no entry in elements")
            }
            GrammarError::MissingFirstSet { index } => write!(f, " \"{}\" has no firstset", index),
            GrammarError::MissingSteuerSet { index } => {
                write!(f, " \"{index}\" has no steuerset")
            }
            GrammarError::MissingProduction { index } => {
                write!(f, " \"{index}\" not in productions")
            }
            GrammarError::LeftRecursion { index } => {
                write!(f, " \"{index}\" is left recursive")
            }
            GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
            GrammarError::UnexpectedElementError { reason, pos } => {
                write!(f, " \"{reason}\" at pos {pos} was not expected")
            }
            GrammarError::GraphNodeAlreadyExistsError { .. } => {
                write!(f, "graph node already exists")
            }
            GrammarError::GraphNodeDoesNotExistsError { .. } => {
                write!(f, "graph node doesn't exists")
            }
            GrammarError::GraphIndexOutOfBounds { .. } => {
                write!(f, "graph node index out of bounds")
            }
        }
    }
}
