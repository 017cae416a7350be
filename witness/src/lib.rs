//! Only here to have cargo build `yary` for the witnesses in ../tools/compile_fail.py.
