# Toolchain the pinned tree builds with (newer rustc rejects it), offline.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.74.1
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTDOCFLAGS DOCS_RS
