//! not used
