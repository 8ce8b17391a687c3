#!/bin/bash
# How weak a change of one coefficient do the value checks (V01, V02) still see?  Every entry of every table of the
# reference model is changed by a relative amount (default 1e-6), and the states of all pures and pairs are evaluated.
# Printed: entries whose change stays below the tolerance of the checks (1e-12 of the conditioning) everywhere.
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/../../refmodel/src/{model,tab_detail,tab_gerg}.rs "$here/main.rs" "$w/src/"
cp "$here/conv.py" "$w/"
cat > "$w/src/lib.rs" <<'R'
mod model;
pub struct T<A>(pub std::cell::UnsafeCell<A>);
unsafe impl<A> Sync for T<A> {}
impl<A> std::ops::Deref for T<A> { type Target = A; fn deref(&self) -> &A { unsafe { &*self.0.get() } } }
pub mod tab_detail;
pub mod tab_gerg;
pub use model::*;
R
printf '[package]\nname = "sens"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n' > "$w/Cargo.toml"
sed -i 's/= tg::N0;/= *tg::N0;/' "$w/src/model.rs"
cd "$w" && python3 conv.py && cargo run --offline --release -q -- "${1:-1e-6}"
