#!/bin/bash
# mkcopy.sh DEST: a copy of /repo's crate for schedule exploration: the same source, with the names std::sync and
# std::thread standing for shuttle's model of them, and no exported C symbols.
set -e
d=$1
rm -rf "$d.new"
mkdir -p "$d.new"
cp -r /repo/src /repo/build.rs "$d.new/"
sed -e 's/^name = "divans"$/name = "divans_shuttle"/' -e '/^\[\[bin\]\]/,/^name/d' -e '/^crate-type/d' \
  -e 's/^\[dependencies\]$/[dependencies]\nshuttle = "0.9.9"/' /repo/Cargo.toml >"$d.new/Cargo.toml"
printf '\n[workspace]\n' >>"$d.new/Cargo.toml"
rm -rf "$d.new/src/bin"
grep -rl 'no_mangle' "$d.new/src" | while read -r f; do sed -i -e 's/#\[no_mangle\]//' "$f"; done
sed -i -e 's/^extern crate std;/extern crate std as real_std;/' "$d.new/src/lib.rs"
cat >>"$d.new/src/lib.rs" <<'X'

extern crate shuttle;
mod std {
    pub use real_std::*;
    pub mod sync { pub use shuttle::sync::*; }
    pub mod thread { pub use shuttle::thread::*; }
}
X
rm -rf "$d"
mv "$d.new" "$d"
