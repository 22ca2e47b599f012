#!/bin/bash
# extract.sh OUTDIR: dump /repo's type-checked program (both workspace crates) as JSON into OUTDIR.
# Rebuilds from /repo's current working tree. Build products live in /verif/build (git-ignored).
set -e
OUT="$1"
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${HIRV_REPO:-/repo}"
B="${HIRV_BUILD:-$V/build}"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
mkdir -p "$B" "$OUT"
N="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$N/lib"
# 1. the extraction driver
if [ ! -x "$B/driver" ] || [ "$V/driver/main.rs" -nt "$B/driver" ]; then
  rustc +nightly --edition 2021 -O --cap-lints allow "$V/driver/main.rs" -o "$B/driver.tmp.$$"
  mv "$B/driver.tmp.$$" "$B/driver"
fi
# 2. a nightly rustc which reports itself as stable, so that dependencies do not probe nightly features
cat > "$B/rustc.tmp.$$" <<EOS
#!/bin/bash
case " \$* " in
  *" -vV "*|*" --version "*) "$N/bin/rustc" "\$@" | sed -e 's/-nightly//';;
  *) exec "$N/bin/rustc" "\$@";;
esac
EOS
chmod +x "$B/rustc.tmp.$$"; mv "$B/rustc.tmp.$$" "$B/rustc"
# 3. type-check all targets of the workspace except tests; force the workspace crates to be re-analysed
export RUSTUP_TOOLCHAIN=1.74.1 RUSTC_BOOTSTRAP=-1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR="$B/target"
cd "$REPO"
rm -rf "$B"/target/debug/.fingerprint/hyper-ir-lsp-* "$B"/target/debug/deps/*hyper_ir_lsp*
RUSTC="$B/rustc" RUSTC_WORKSPACE_WRAPPER="$B/driver" HIRV_OUT="$OUT" \
  cargo check --offline --frozen --workspace --lib --bins -q
