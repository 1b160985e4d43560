"""A vendor directory for -Zbuild-std offline: the library's own vendored
crates, and the registry sources of everything in Cargo.lock, by symlink."""
import glob, json, os, re, shutil


def make(out, lock, toolchain):
    lib = os.path.expanduser(f'~/.rustup/toolchains/{toolchain}/lib/rustlib/src/rust/library')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for d in glob.glob(lib + '/vendor/*'):
        os.symlink(d, os.path.join(out, os.path.basename(d)))
    home = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))
    src = glob.glob(home + '/registry/src/*')
    pat = r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "[^"]+"\nchecksum = "([0-9a-f]+)"'
    for n, v, c in re.findall(pat, open(lock).read()):
        dst = f'{out}/{n}-{v}'
        found = [f'{s}/{n}-{v}' for s in src if os.path.isdir(f'{s}/{n}-{v}')]
        if os.path.lexists(dst) or not found:
            continue
        os.makedirs(dst)
        for f in os.listdir(found[0]):
            if f != '.cargo-checksum.json':
                os.symlink(f'{found[0]}/{f}', f'{dst}/{f}')
        with open(dst + '/.cargo-checksum.json', 'w') as w:
            json.dump({'files': {}, 'package': c}, w)
