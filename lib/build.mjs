// Builds the canisters of /repo's current working tree (same command as the project's own build) and returns
// the wasm.  The result is cached by the content of the sources, never by time stamps.
import fs from 'fs'; import path from 'path'; import crypto from 'crypto'; import os from 'os';
import { execFileSync, spawnSync } from 'child_process'; import { fileURLToPath } from 'url';
export const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const REPO = process.env.VERIF_REPO || '/repo';
const CACHE = path.join(ROOT, '.cache');
function walk(d, out) {
  for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) { if (e.name !== 'target' && e.name !== '.git' && e.name !== 'node_modules') walk(p, out); } else if (e.isFile()) out.push(p);
  }
  return out;
}
export function sourceHash(dirs = ['src', 'wasm']) {
  const h = crypto.createHash('sha256');
  const files = dirs.flatMap((d) => walk(path.join(REPO, d), [])).concat(['Cargo.toml', 'Cargo.lock'].map((f) => path.join(REPO, f)));
  for (const f of files) { const b = fs.readFileSync(f); h.update(path.relative(REPO, f) + '\0' + b.length + '\0'); h.update(b); }
  return h.digest('hex').slice(0, 24);
}
function envOf() {
  const home = '/root';
  return { ...process.env, HOME: home, PATH: `${home}/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin`, RUSTUP_TOOLCHAIN: '1.89.0', RUSTC_WRAPPER: '', CARGO_TERM_COLOR: 'never', CARGO_NET_OFFLINE: 'true', CARGO_INCREMENTAL: '0', CARGO_PROFILE_DEV_DEBUG: 'line-tables-only', RUSTFLAGS: undefined, CARGO_TARGET_DIR: undefined, RUSTDOCFLAGS: undefined, CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUSTFLAGS: '-Clink-arg=-Wl,--allow-multiple-definition' };
}
// The quick tier compiles the canister crate itself with few or no LLVM optimisations (a third of the build time, same
// source, same dependencies; checks that run long ask for level 1); the thorough tier uses the project's own command unchanged.
export const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
export function buildWasm(pkg, opt = 0) {
  const o0 = TIER === 'quick', key = sourceHash(), dir = path.join(CACHE, key), out = path.join(dir, pkg + (o0 ? '.O' + opt : '') + '.wasm');
  if (fs.existsSync(out)) return { bytes: fs.readFileSync(out), key };
  fs.mkdirSync(dir, { recursive: true });
  const lock = path.join(CACHE, 'lock');
  // serialise concurrent builds with flock(1)
  const script = `
    set -e
    [ -f '${out}' ] && exit 0
    cd '${REPO}'
    T=target/wasm32-unknown-unknown/release
    for f in $T/.fingerprint/${pkg}-*; do [ -e "$f" ] && find "$f" -type f -delete || true; done
    cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p ${pkg} ${o0 ? `-- -C opt-level=${opt} -C debug-assertions=off -C overflow-checks=off` : ''} 1>&2
    cp $T/${pkg}.wasm '${out}.tmp' && mv '${out}.tmp' '${out}'
  `;
  const env = envOf(); for (const k of Object.keys(env)) if (env[k] === undefined) delete env[k];
  const r = spawnSync('flock', [lock, 'bash', '-c', script], { env, encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.status !== 0) { process.stderr.write((r.stderr || '').slice(-4000)); console.error(`build of ${pkg} failed`); process.exit(3); }
  tidy(key); // keep the cache small
  return { bytes: fs.readFileSync(out), key };
}
// The command-line tool, as `cargo build` makes it; its path.
export function buildTool() {
  const key = sourceHash(['src', 'wasm', 'cmdline']), dir = path.join(CACHE, key), out = path.join(dir, 'tool');
  if (fs.existsSync(out)) return out;
  fs.mkdirSync(dir, { recursive: true });
  const script = `
    set -e
    [ -f '${out}' ] && exit 0
    cd '${REPO}'
    T=target/debug
    for f in $T/.fingerprint/origyn_icrc7_cmdlinetools-* $T/.fingerprint/core_nft-*; do [ -e "$f" ] && find "$f" -type f -delete || true; done
    cargo build --workspace --exclude integration_tests --bins --locked --offline 1>&2
    cp $T/origyn_icrc7_cmdlinetools '${out}.tmp' && { strip '${out}.tmp' 2>/dev/null || true; } && mv '${out}.tmp' '${out}'
  `;
  const env = envOf(); for (const k of Object.keys(env)) if (env[k] === undefined) delete env[k];
  const r = spawnSync('flock', [path.join(CACHE, 'lock'), 'bash', '-c', script], { env, encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.status !== 0) { process.stderr.write((r.stderr || '').slice(-4000)); console.error('build of the command-line tool failed'); process.exit(3); }
  tidy(key); return out;
}
function tidy(key) {
  const ents = fs.readdirSync(CACHE).filter((e) => /^[0-9a-f]{24}$/.test(e)).map((e) => [fs.statSync(path.join(CACHE, e)).mtimeMs, e]).sort((a, b) => b[0] - a[0]);
  for (const [, e] of ents.slice(12)) if (e !== key) fs.rmSync(path.join(CACHE, e), { recursive: true, force: true });
}
export const wasmFile = (p) => fs.readFileSync(p);
export function archiveWasm() {
  // Embedded by the ICRC-3 dependency (a crates.io package): the real archive canister.
  const base = '/root/.cargo/registry/src';
  for (const d of fs.readdirSync(base)) { const p = path.join(base, d, 'bity-ic-icrc3-0.5.0/wasm/icrc3_archive_canister.wasm.gz'); if (fs.existsSync(p)) return fs.readFileSync(p); }
  throw new Error('archive wasm not found');
}
