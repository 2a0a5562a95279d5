from modes import *

A = ['src/aes/aes.c']
N = '@WBCRYPTO_'
KS = 244                          # sizeof(AES_KEY); the contract below is on exactly these bytes


def ks_byte(kind, k, i):
    return tm.raw_uf('%s_ks' % kind, 8, k, C64(i))


def set_key(kind):
    """OpenSSL AES_set_{en,de}crypt_key: reads bits/8 key bytes, writes the schedule of that key"""
    def h(ex, st, a):
        ex.oblige(st, eq(a[1], C32(128)), 'call-precondition', 'AES_set_%scrypt_key gets 128 bits' % kind)
        k = ex.load_be(st, a[0], 16)
        ex.store_bytes(st, a[2], [ks_byte(kind, k, i) for i in range(KS)])
        return C32(0)
    return h


def block(kind):
    """OpenSSL AES_{en,de}crypt: AES-128 under the key whose schedule is in the AES_KEY"""
    def h(ex, st, a):
        bs = [ex.load(st, add(a[2], C64(i)), 1) for i in range(KS)]
        b0 = bs[0]
        k = key_of(b0, kind)
        if k is None:
            ex.oblige(st, FALSE, 'call-precondition', 'AES_%scrypt gets an AES %scryption key schedule' % (kind, kind))
            return None
        for i in range(KS):
            ex.oblige(st, eq(bs[i], ks_byte(kind, k, i)), 'call-precondition', 'AES_%scrypt: key schedule byte %d' % (kind, i))
        x = ex.load_be(st, a[0], 16)
        ex.store_be(st, a[1], tm.raw_uf('AES' + kind, 128, k, x))
        return None
    return h


def key_of(t, kind):
    if t.op == 'uf' and t.v == '%s_ks' % kind:
        return t.args[0]
    return None


CON = {'@AES_set_encrypt_key': set_key('en'), '@AES_set_decrypt_key': set_key('de'),
       '@AES_encrypt': block('en'), '@AES_decrypt': block('de')}


def ctx_size(c):
    from gcmctx import offsets
    return offsets('struct aes_context', 'wbcrypto/aes.h', [])[1]


def u_block(lens):
    def f(c):
        c.need('@WBCRYPTO_aes_init_key', '@WBCRYPTO_aes_encrypt', '@WBCRYPTO_aes_decrypt')
        for n in lens:
            for inplace in (False, True):
                ex = c.exec()
                ex.contracts.update(CON)
                st = sym.State()
                if n is None:
                    kl = var(64, 'keylen', 16, (1 << 62))
                    key = ex.new_obj(st, 'key', kl, 'arg', mem.Sym('kb'), wr=False)
                    K = concat(*[tm.sel('kb', C64(i)) for i in range(16)])
                else:
                    kl = C64(n)
                    key = ex.new_obj(st, 'key', n, 'arg', mem.Sym('kb'), wr=False)
                    K = concat(*[tm.sel('kb', C64(i)) if i < n else const(8, 0) for i in range(16)])
                ctx = ex.new_obj(st, 'ctx', ctx_size(c), 'arg', mem.Sym('ctx0'))
                st, r = one(ex.call(st, '@WBCRYPTO_aes_init_key', [ctx, key, kl]), 'init_key')
                ret_is(ex, st, r, 1, 'aes_init_key')
                X = var(128, 'X')
                for fn, want in (('@WBCRYPTO_aes_encrypt', 'en'), ('@WBCRYPTO_aes_decrypt', 'de'), ('@WBCRYPTO_aes_encrypt', 'en')):
                    out = ex.new_obj(st, 'out', 16, 'arg', mem.BV(X) if inplace else mem.Sym('out0'))
                    inp = out if inplace else ex.new_obj(st, 'in', 16, 'arg', mem.BV(X), wr=False)
                    st, r = one(ex.call(st, fn, [inp, out, ctx]), fn)
                    ret_is(ex, st, r, 1, fn)
                    ex.oblige(st, eq(ex.load_be(st, out, 16), tm.raw_uf('AES' + want, 128, K, X)), 'postcondition',
                              '%s%s with a key of %s bytes is AES-128 %scryption under its first 16 bytes (zero-extended)' % (fn, ' in place' if inplace else '', n if n is not None else '>= 16', want))
    return f


def front(fam, src, dec=True):
    def f(c):
        P = '@WBCRYPTO_%s_' % fam
        enc, decf = fnptr('@WBCRYPTO_%s_encrypt' % fam), fnptr('@WBCRYPTO_%s_decrypt' % fam)
        nz = var(64, 'n', 0, NMAX)
        mx = var(64, 'max', 0, NMAX)

        def same(ex, st, a, w, what):
            for i, (x, y) in enumerate(zip(a, w)):
                ex.oblige(st, eq(x, y), 'call-precondition', '%s: argument %d' % (what, i))

        # CBC
        for name, blk in (('cbc_encrypt', enc), ('cbc_decrypt', decf)):
            if name == 'cbc_decrypt' and not dec:
                continue
            c.need(P + name)
            ex = c.exec()
            st = sym.State()
            inp = ex.new_obj(st, 'in', nz, 'arg', mem.Sym('in0'), wr=False)
            out = ex.new_obj(st, 'out', mx, 'arg', mem.Sym('out0'))
            use = ex.new_obj(st, 'use', 8, 'arg', mem.Sym('use0'))
            key = ex.new_obj(st, 'ctx', 8, 'arg', mem.Sym('ctx0'), wr=False)
            iv = ex.new_obj(st, 'iv', 16, 'arg', mem.Sym('iv0'))
            want = [inp, nz, out, mx, use, key, iv, blk]
            r = var(32, 'cbcret', 0, 1)
            L, U = var(64, 'seplen'), var(64, 'uselen')

            def cbc(ex, st, a):
                same(ex, st, a, want, P + name + ' calls ' + 'WBCRYPTO_cbc128 with the family\'s routine')
                st.ghost['ran'] = tm.TRUE
                ex.store(st, use, U)
                return r

            def sep(ex, st, a):
                same(ex, st, a, [out, nz], P + name + ': padding length of the decrypted message')
                ex.oblige(st, st.ghost.get('ran', tm.FALSE), 'call-precondition', 'padding is looked at after decryption')
                return L
            ex.contracts.update({'@WBCRYPTO_cbc128_' + name[4:]: cbc, '@WBCRYPTO_padding_pkcs7_separate_length': sep})
            for st, ret in ex.call(st, P + name, want[:7]):
                ex.oblige(st, st.ghost.get('ran', tm.FALSE), 'postcondition', P + name + ' runs WBCRYPTO_cbc128_' + name[4:])
                ex.oblige(st, eq(ret, r), 'postcondition', P + name + ' returns 1 exactly if the mode succeeded')
                got = ex.load(st, use, 8)
                ex.oblige(st, tm.implies(eq(r, C32(1)), eq(got, L if name == 'cbc_decrypt' else U)), 'postcondition', P + name + ' reports the message length')
        # GCM, GCM file, FPE
        for name, callee in (('gcm_init', 'gcm_init'), ('gcmfile_init', 'gcmfile_init'), ('fpe_init', 'fpe_init'), ('fpe_mac_init', 'fpe_mac_init')):
            c.need(P + name)
            for null in (False, True):
                ex = c.exec()
                st = sym.State()
                key = ex.new_obj(st, 'ctx', 8, 'arg', mem.Sym('ctx0'), wr=False)
                res = C64(0) if null else ex.new_obj(st, 'res', 8, 'arg', mem.Sym('res0'))
                if 'fpe' in name:
                    tw = ex.new_obj(st, 'twk', nz, 'arg', mem.Sym('tw0'), wr=False)
                    args = [key, tw, nz, var(32, 'radix')]
                    want = args[1:] + [key, enc]
                else:
                    args, want = [key], [key, enc]

                def init(ex, st, a):
                    same(ex, st, a, want, P + name + ' passes its key and encryption routine to WBCRYPTO_' + callee)
                    st.ghost['ran'] = tm.TRUE
                    return res
                ex.contracts['@WBCRYPTO_' + callee] = init
                for st, ret in ex.call(st, P + name, args):
                    ex.oblige(st, st.ghost.get('ran', tm.FALSE), 'postcondition', P + name + ' initialises the mode')
                    ex.oblige(st, eq(ret, res), 'postcondition', P + name + ' returns the mode context')
    return f


def u_ctx(c):
    """a new context is allocated, zeroed and usable; allocation failure gives NULL"""
    c.need('@WBCRYPTO_aes_context_init')
    ex = c.exec()
    st = sym.State()
    for st, r in ex.call(st, '@WBCRYPTO_aes_context_init', []):
        if r.op == 'const' and r.v == 0:
            continue
        for i in range(0, ctx_size(c), 8):
            ex.oblige(st, eq(ex.load(st, add(r, C64(i)), 8), C64(0)), 'postcondition', 'new context is zero', record=False)


def M(fam):
    return ['src/%s/%s_modes.c' % (fam, fam)]


UNITS = [
    Unit('AES block, key of 16 bytes or more', u_block([None]), A, 'aes_init_key, aes_encrypt, aes_decrypt over the OpenSSL contracts; in place too'),
    Unit('AES block, short keys 0..7', u_block(range(8)), A),
    Unit('AES block, short keys 8..15', u_block(range(8, 16)), A),
    Unit('AES context', u_ctx, A),
    Unit('AES front ends', front('aes', 'aes'), M('aes'), 'CBC both directions, GCM, GCM file, FPE, FPE-MAC'),
    Unit('SM4 front ends', front('sm4', 'sm4'), M('sm4')),
    Unit('white-box SM4 front ends', front('wbsm4', 'wbsm4'), M('wbsm4')),
    Unit('white-box AES front ends', front('wbaes', 'wbaes', dec=False), M('wbaes')),
]
H = Harness('p22.c', A + M('aes') + M('sm4') + M('wbaes') + M('wbsm4') + ['src/sm4/sm4.c', 'src/wbaes/wbaes.c', 'src/wbaes/wbaes_local.c', 'src/wbsm4/wbsm4.c', 'src/wbsm4/wbsm4_gen.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c', 'src/utils/wrandom.c', 'src/utils/padding.c', 'src/modes/cbc128.c', 'src/modes/gcm128.c', 'src/modes/gcmfile.c'] +
            ['src/fpe/' + x for x in ('ff1.c', 'ff3.c', 'fpe_locl.c', 'init.c', 'ff1_cmac.c', 'ff3_gmac.c')], extra=['-fopenmp'], quick_s=4)
if __name__ == '__main__':
    sys.exit(main('P22', UNITS, H, assumptions=['OpenSSL AES_set_encrypt_key/AES_set_decrypt_key/AES_encrypt/AES_decrypt implement AES-128 key schedule and block operations (assumed contracts on the dependency)']))
