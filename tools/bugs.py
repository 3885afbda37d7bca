"""Definitions of the planted bugs (edits against /repo, and histories that show them)."""
BUGS = []
def bug(id, property, needs, breaks, edits, cases=None, crate=None, deps=None, js=None):
    b = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits)
    if cases is not None: b['cases'] = cases
    if crate: b['crate'] = crate
    if deps: b['deps'] = deps
    if js: b['js'] = js
    BUGS.append(b)
PR = 'programs/asset/program/src/processor/'
TY = 'programs/asset/types/src/'
NONE = {'k': 'none', 'xl': 0}
pad = lambda n: (n + 7) // 8 * 8
def X(t, d): return {'t': t, 'n': len(d), 'd': list(d)}
def A(owner='u1', auth='u1', exts=(), std=0, mut=True, st=0, group='-', da='-', dr=0, name=(65,), xl=0, spare=0):
    ln = 168 + sum(16 + pad(e['n']) for e in exts) + spare
    return {'k': 'asset', 'st': st, 'std': std, 'mut': mut, 'owner': owner, 'group': group, 'auth': auth, 'da': da, 'dr': dr,
            'name': list(name), 'exts': list(exts), 'len': ln, 'xl': xl}
def I(op, acc, sg, **k): return dict({'op': op, 'acc': acc, 'sg': sg, 'cpi': False}, **k)
def ok(i): return {'i': i, 'ok': True}
def no(i, *codes): return dict({'i': i, 'ok': False}, **({'codes': list(codes)} if codes else {}))
def xin(t, d, n=None): return {'t': t, 'n': len(d) if n is None else n, 'hd': True, 'd': list(d)}
def upd(k, u, e, p='u5', sg=None):
    return I('Update', [k, u, '-', '-', p, 'SYS'], sg or [u, p], hn=False, name=[], hm=False, mut=False, he=True, e=e)
def approve(k, u, d, roles): return I('Approve', [k, u, d], [u], all=False, roles=roles)
def u64(v): return list(int(v).to_bytes(8, 'little'))
import hashlib
def key(n): return list(bytes(32)) if n == 'SYS' else list(hashlib.sha256(('vp:' + n).encode()).digest())
def creator(n, v, s): return key(n) + [v, s]
def grouping(size, mx, d='SYS'): return u64(size) + u64(mx) + key(d)

bug('locked-revoke', 'P03', 'a delegate locks the asset and the owner revokes the delegate while it is locked, then unlocks',
    'revoking the delegate of a locked asset is accepted, so the owner regains control of an asset locked by its delegate',
    [(PR + 'mod.rs', '''                | Instruction::Lock
                | Instruction::Revoke(_)
                | Instruction::Transfer''', '''                | Instruction::Lock
                | Instruction::Transfer''')],
    [{'init': {'A': A()}, 'steps': [ok(approve('A', 'u1', 'u2', [2])), ok(I('Lock', ['A', 'u2'], ['u2'])),
        no(I('Revoke', ['A', 'u1'], ['u1'], all=True, roles=[])), no(I('Unlock', ['A', 'u1'], ['u1']))],
      'final': {'A': {'st': 1, 'da': 'u2'}}}])

bug('keep-delegate', 'P05', 'an asset is transferred to the wallet that is its current delegate',
    'the delegation survives a transfer to the delegate itself, so it passes on to what the new owner does next',
    [(PR + 'transfer.rs', '''    // Clear the delegate.
    asset.delegate = PodOption::new(Delegate::default());
''', '''    // Clear the delegate, unless the delegate is the one receiving the asset.
    let keep = asset
        .delegate
        .value()
        .map(|delegate| *delegate.address == *ctx.accounts.recipient.key())
        .unwrap_or(false);

    if !keep {
        asset.delegate = PodOption::new(Delegate::default());
    }
''')],
    [{'init': {'A': A()}, 'steps': [ok(approve('A', 'u1', 'u2', [1])), ok(I('Transfer', ['A', 'u2', 'u2', '-'], ['u2']))],
      'final': {'A': {'owner': 'u2', 'da': '-', 'dr': 0}}}])

bug('verify-by-duplicate', 'P10', 'unverify by a creator that is listed twice',
    'only the first entry of the creator loses its verification',
    [(PR + 'unverify.rs', '''    extension.creators.iter_mut().for_each(|creator| {
        if creator.address == *ctx.accounts.creator.key() {''', '''    extension.creators.iter_mut().for_each(|creator| {
        if !found && creator.address == *ctx.accounts.creator.key() {''')],
    [{'init': {'A': A(exts=[X(3, creator('u2', 1, 50) + creator('u2', 1, 50))])},
      'steps': [ok(I('Unverify', ['A', 'u2'], ['u2']))],
      'final': {'A': {'exts': [X(3, creator('u2', 0, 50) + creator('u2', 0, 50))]}}}])

bug('burn-signer-refund', 'P15', 'a burn that names a recipient for the rent',
    'when the asset is a member of a group the rent goes to the signer instead of the recipient named',
    [(PR + 'burn.rs', '''    let recipient = ctx.accounts.recipient.unwrap_or(ctx.accounts.signer);''',
      '''    let recipient = match (ctx.accounts.recipient, ctx.accounts.group) {
        (Some(recipient), None) => recipient,
        _ => ctx.accounts.signer,
    };''')],
    [{'init': {'A': A(group='G'), 'G': A(exts=[X(6, grouping(1, 0))])},
      'steps': [ok(I('Burn', ['A', 'u1', 'u6', 'G'], ['u1']))], 'balance': {'u6': (168 + 128) * 6960, 'u1': 0}}])

# ---------------------------------------------------------------------------
def mgr(n, roles): return X(8, key(n) + [roles])
AT = X(1, [1, 97, 1, 98])
ROL = lambda bp, c: X(7, u64(bp) + c)
def cop(t, d): return list(int(t).to_bytes(4, 'little')) + list(len(d).to_bytes(4, 'little')) + list(d)
def cmatch(who, k): return cop(4, u64(who) + key(k))

bug('joined-delegates', 'P01', 'a managed asset whose owner has approved a delegate without the transfer role, while its manager has that role',
    'the address and the role are looked for in the delegate and the manager independently, so a delegate with only the lock role can transfer',
    [('programs/asset/program/src/utils.rs', '''            // any of the delegates is sufficient
            if result.is_ok() {
                return result;
            }

            if let Some(delegate) = delegate {
                require!(
                    *delegate.address == *target,
                    AssetError::InvalidDelegate,
                    "invalid delegate"
                );

                require!(
                    delegate.is_active(role),
                    AssetError::DelegateRoleNotActive,
                    "missing \\"{:?}\\" role",
                    role
                );
''', '''            // any of the delegates is sufficient
            if result.is_ok() {
                return result;
            }

            let active = delegates
                .iter()
                .flatten()
                .any(|delegate| delegate.is_active(role));

            if let Some(delegate) = delegate {
                require!(
                    *delegate.address == *target,
                    AssetError::InvalidDelegate,
                    "invalid delegate"
                );

                require!(
                    active,
                    AssetError::DelegateRoleNotActive,
                    "missing \\"{:?}\\" role",
                    role
                );
''')],
    [{'init': {'A': A(std=1, exts=[mgr('u3', 1)])}, 'steps': [ok(approve('A', 'u1', 'u2', [2])), no(I('Transfer', ['A', 'u2', 'u4', '-'], ['u2']))],
      'final': {'A': {'owner': 'u1'}}},
     {'init': {'A': A(std=1, exts=[mgr('u3', 1)])}, 'steps': [ok(I('Transfer', ['A', 'u3', 'u4', '-'], ['u3']))], 'final': {'A': {'owner': 'u4'}}}])

bug('full-group-wraps', 'P06', 'a group limited to 256 members that has 256 members',
    'the size is compared as a byte, so the limit is not seen and one more member is accepted',
    [(PR + 'group.rs', '''            *grouping.size < **max_size,''', '''            (*grouping.size as u8 as u64) < **max_size,''')],
    [{'init': {'A': A(), 'G': A(exts=[X(6, grouping(256, 256))])}, 'steps': [no(I('Group', ['A', 'G', 'u1'], ['u1']))],
      'final': {'A': {'group': '-'}}}])

bug('delegate-any-authority', 'P07', 'the delegate of a group adds an asset that has another update authority',
    'the authorities are only compared when the group authority itself signs',
    [(PR + 'group.rs', '''    require!(
        group.authority == asset.authority,''', '''    require!(
        group.authority == asset.authority || *ctx.accounts.authority.key() != group.authority,''')],
    [{'init': {'A': A(auth='u2'), 'G': A(exts=[X(6, grouping(0, 0, 'u3'))])}, 'steps': [no(I('Group', ['A', 'G', 'u3'], ['u3']))],
      'final': {'A': {'group': '-'}}}])

bug('grown-tail', 'P12', 'an extension in front of others grows by more than its padding, and the last extension ends in something other than zeros',
    'too few of the bytes after the extension are moved, so the end of the last extension is lost',
    [(PR + 'update.rs', "            let bytes_to_move = account_boundary.saturating_sub(boundary);", "            let bytes_to_move = account_boundary.saturating_sub(boundary.max(updated_boundary));")],
    [{'init': {'A': A(exts=[X(2, [1, 97] + [7] * 8), X(11, list(range(1, 33)))])}, 'steps': [ok(upd('A', 'u1', xin(2, [1, 97] + [7] * 20)))],
      'final': {'A': {'exts': [X(2, [1, 97] + [7] * 20), X(11, list(range(1, 33)))]}}}])
bug('unwritten-before-next', 'P13', 'an extension is allocated while the data of the one before it is only partly written',
    'the incomplete extension is accepted as complete and the next one starts behind its declared length',
    [(PR + 'allocate.rs', "                    extension.length() as usize + offset <= data.len(),", "                    extension.length() as usize <= data.len() - Extension::LEN,")],
    [{'init': {'A': NONE}, 'steps': [ok(I('Allocate', ['A', 'u5', 'SYS'], ['A', 'u5'], e={'t': 11, 'n': 10, 'hd': True, 'd': [1, 2]})),
        no(I('Allocate', ['A', 'u5', 'SYS'], ['A', 'u5'], e=xin(2, [1, 97, 5]))),
        ok(I('Write', ['A', 'u5', 'SYS'], ['A', 'u5'], ow=False, d=[3] * 8)),
        ok(I('Allocate', ['A', 'u5', 'SYS'], ['A', 'u5'], e=xin(2, [1, 97, 5])))],
      'final': {'A': {'len': 224}}}])

bug('soulbound-wallets', 'P02', 'a soulbound asset is moved by its delegate',
    'the standard is only looked at when the owner signs',
    [(PR + 'transfer.rs', '''        asset.standard != Standard::Soulbound,''', '''        asset.standard != Standard::Soulbound || asset.owner != *ctx.accounts.signer.key(),''')],
    [{'init': {'A': A(std=2)}, 'steps': [ok(approve('A', 'u1', 'u2', [1])), no(I('Transfer', ['A', 'u2', 'u4', '-'], ['u2']))],
      'final': {'A': {'owner': 'u1'}}}])

bug('group-royalty-omitted', 'P16', 'a transfer of a grouped asset to a program account without naming the group',
    'the royalties of the group are only checked if the caller supplies the group account',
    [(PR + 'transfer.rs', '''        if group.is_some() && !royalties_checked {''', '''        if group.is_some() && ctx.accounts.group.is_some() && !royalties_checked {''')],
    [{'init': {'A': A(group='G'), 'G': A(exts=[X(6, grouping(1, 0)), ROL(500, cmatch(2, 'u4'))])}, 'steps': [no(I('Transfer', ['A', 'u1', 'x1', '-'], ['u1']))],
      'final': {'A': {'owner': 'u1'}}}])

bug('handover-to-owner', 'P09', 'the update authority hands over to the owner of the asset, who did not sign',
    'the new authority is taken as agreed when it owns the asset',
    [(PR + 'handover.rs', '''    require!(
        ctx.accounts.new_authority.is_signer(),
        ProgramError::MissingRequiredSignature,
        "new_authority"
    );

''', ''), (PR + 'handover.rs', '''    asset.authority = *ctx.accounts.new_authority.key();''', '''    require!(
        ctx.accounts.new_authority.is_signer() || asset.owner == *ctx.accounts.new_authority.key(),
        ProgramError::MissingRequiredSignature,
        "new_authority"
    );

    asset.authority = *ctx.accounts.new_authority.key();''')],
    [{'init': {'A': A(owner='u4')}, 'steps': [no(I('Handover', ['A', 'u1', 'u4'], ['u1'])), no(I('Handover', ['A', 'u1', 'u2'], ['u1'])), ok(I('Handover', ['A', 'u1', 'u2'], ['u1', 'u2']))],
      'final': {'A': {'auth': 'u2'}}}])

bug('immutable-trim', 'P08', 'an immutable asset whose account has spare bytes is trimmed',
    'the account of an immutable asset can be shrunk',
    [(PR + 'resize.rs', '''    require!(
        <PodBool as Into<bool>>::into(asset.mutable),''', '''    require!(
        <PodBool as Into<bool>>::into(asset.mutable) || matches!(args, Strategy::Trim),''')],
    [{'init': {'A': A(mut=False, spare=32)}, 'steps': [no(I('Resize', ['A', 'u1', 'u5', 'SYS'], ['u1', 'u5'], trim=True, v=0))],
      'final': {'A': {'len': 200}}}])

bug('royalties-raised', 'P11', 'the royalties of an asset that already have a basis point value above zero are updated above 10,000',
    'the limit is only enforced when the royalties are set up or were zero',
    [(TY + 'extensions/royalties.rs', '''        if *other.basis_points > 10000 {
            return Err(Error::InvalidRoyaltyBasisPoints);
        }

        Ok(())
    }
}

#[derive(Default)]''', '''        if *other.basis_points > 10000 && *other.basis_points > self.basis_points.saturating_mul(100) {
            return Err(Error::InvalidRoyaltyBasisPoints);
        }

        Ok(())
    }
}

#[derive(Default)]''')],
    [{'init': {'A': A(exts=[ROL(500, cmatch(2, 'u4'))])}, 'steps': [no(upd('A', 'u1', xin(7, u64(10001) + cmatch(2, 'u4'))))],
      'final': {'A': {'exts': [ROL(500, cmatch(2, 'u4'))]}}}])

bug('manager-from-buffer', 'P18', 'a manager extension is added to a plain asset by an update',
    'a non-managed asset ends up with a manager',
    [(PR + 'update.rs', '''            ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {''', '''            ExtensionType::None | ExtensionType::Proxy => {''')],
    [{'init': {'A': A()}, 'steps': [no(upd('A', 'u1', xin(8, key('u3') + [7])))], 'final': {'A': {'exts': []}}}])

bug('unlock-roleless', 'P04', 'the delegate of a locked asset has no lock role and the owner unlocks',
    'a lock set by the manager can be undone by the owner although a delegate is approved',
    [(PR + 'unlock.rs', '''    if asset.delegate.value().is_some() {''', '''    if asset
        .delegate
        .value()
        .map_or(false, |delegate| delegate.is_active(DelegateRole::Lock))
    {''')],
    [{'init': {'A': A(std=1, exts=[mgr('u3', 2)])}, 'steps': [ok(approve('A', 'u1', 'u2', [1])), ok(I('Lock', ['A', 'u3'], ['u3'])), no(I('Unlock', ['A', 'u1'], ['u1']))],
      'final': {'A': {'st': 1}}}])

bug('ungroup-unlocks', 'P23', 'a locked asset leaves its group',
    'leaving a group resets the state of the asset',
    [(PR + 'ungroup.rs', '''    asset.group = ''', '''    asset.state = nifty_asset_types::state::State::Unlocked;
    asset.group = ''')],
    [{'init': {'A': A(group='G', st=1), 'G': A(exts=[X(6, grouping(1, 0))])}, 'steps': [ok(I('Ungroup', ['A', 'G', 'u1'], ['u1']))],
      'final': {'A': {'group': '-', 'st': 1}}}])

bug('burn-transfer-role', 'P14', 'a delegate that holds the transfer role, but not the burn role, burns the asset of an owner',
    'the burn role is not asked for',
    [(PR + 'burn.rs', '''        .is_ok();
''', '''        .is_ok()
        || asset
            .delegate
            .value()
            .map_or(false, |delegate| {
                *delegate.address == *ctx.accounts.signer.key()
                    && delegate.is_active(DelegateRole::Transfer)
            });
''')],
    [{'init': {'A': A()}, 'steps': [ok(approve('A', 'u1', 'u2', [1])), no(I('Burn', ['A', 'u2', '-', '-'], ['u2']))], 'final': {'A': {'k': 'asset'}}}])

bug('or-drops-last', 'P17', 'an or constraint whose last alternative is the empty constraint',
    'an alternative without any content at the end of the list is not read, so an or that must pass fails',
    [(TY + 'constraints/or.rs', '''        while offset < bytes.len() {
            let constraint''', '''        while offset + std::mem::size_of::<Operator>() < bytes.len() {
            let constraint''')],
    crate='''use nifty_asset_types::constraints::*;
use solana_program::pubkey::Pubkey;
struct T(Pubkey, Pubkey);
impl Target for T {
    fn is_empty(&self) -> bool { true }
    fn key(&self) -> &Pubkey { &self.0 }
    fn owner(&self) -> &Pubkey { &self.1 }
}
fn main() {
    let t = T(Pubkey::new_unique(), Pubkey::new_unique());
    let mut m = PubkeyMatchBuilder::default();
    m.set(Account::Recipient, &[Pubkey::new_unique()]);
    let mut b = OrBuilder::default();
    b.add(&mut m);
    b.add(&mut EmptyBuilder::default());
    let bytes = b.build();
    let c = Constraint::from_bytes(&bytes);
    let r = c.assertable.assert(&Context { asset: &t, authority: &t, recipient: Some(&t) });
    assert!(matches!(r, Ok(Assertion::Pass)));
    assert_eq!(c.assertable.as_bytes().len() + 8, bytes.len());
}
''')

bug('blank-attribute', 'P24', 'the last attribute of an asset has an empty name and an empty value',
    'a final attribute of two bytes is not read back',
    [(TY + 'extensions/attributes.rs', '''        while cursor < bytes.len() {
            let t = Trait::from_bytes(&bytes[cursor..]);''', '''        while cursor + 2 < bytes.len() {
            let t = Trait::from_bytes(&bytes[cursor..]);''')],
    crate='''use nifty_asset_types::extensions::*;
fn main() {
    let mut b = AttributesBuilder::default();
    b.add("head", "hat").add("", "");
    assert_eq!(b.build().len(), 2);
    let data = b.data();
    let a = Attributes::from_bytes(&data);
    assert_eq!(a.len(), 2);
    assert_eq!(a.length(), data.len());
}
''')

bug('mint-last-byte', 'P22', 'an extension whose last chunk is a single byte',
    'the recipe leaves out a last chunk of one byte, so that the extension stays incomplete',
    [('clients/rust/asset/src/mint.rs', '''            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {
''', '''            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {
                if chunk.len() <= 1 {
                    continue;
                }

''')],
    deps='nifty-asset = { path = "/repo/clients/rust/asset" }\nsolana-program = "~1.16"\n',
    crate='''use nifty_asset::{mint, types::ExtensionType, AssetArgs, ExtensionArgs, MintAccounts, MintIxArgs};
use solana_program::pubkey::Pubkey;
fn main() {
    for n in [10usize, 919, 920, 921, 922, 1844, 1845, 1846, 1847] {
        let ixs = mint(MintIxArgs {
            accounts: MintAccounts { asset: Pubkey::new_unique(), owner: Pubkey::new_unique(), payer: None },
            asset_args: AssetArgs { name: "a".into(), standard: nifty_asset::types::Standard::NonFungible, mutable: true },
            extension_args: vec![ExtensionArgs { extension_type: ExtensionType::Bucket, data: vec![7; n] }],
        }).unwrap();
        // allocate: tag, type, length, option, data length, data; write: tag, overwrite, data length, data
        let sent: usize = ixs.iter().map(|i| match i.data[0] { 4 => i.data.len() - 11, 12 => i.data.len() - 6, _ => 0 }).sum();
        assert_eq!(sent, n);
    }
}
''')

def meta(m, **k): return dict({'k': 'meta', 'own': 'TM', 'ua': 'u3', 'mint': m, 'name': [66], 'sym': [83], 'uri': [117], 'fee': 500, 'hc': False,
                               'cr': [], 'std': 0, 'col': '-', 'cv': False, 'cd': False, 'xl': 0}, **k)
def brg(a, u, tk, sg):
    return I('Bridge', [a, 'V1', u, tk, 'M1', 'D1', 'x1', '-', 't1v', '-', 'u5', 'NIFTY', 'TM', 'SYS', 'SIV', 'TOKEN', 'ATA', '-', '-', '-'], sg, via='BRIDGE')
def vault(m, s): return {'k': 'vault', 'own': 'BRIDGE', 'st': s, 'mint': m, 'len': 36, 'xl': 0}

bug('bridge-any-asset', 'P19', 'an active vault is asked for its token in exchange for another asset than its own',
    'the address of the asset is only checked on the way in, so any asset releases the original token',
    [('programs/bridge/src/processor/bridge.rs', '''    require!(
        derived_key == *ctx.accounts.asset.key,''', '''    require!(
        derived_key == *ctx.accounts.asset.key || matches!(vault.state, State::Active),''')],
    [{'init': {'W1': A(owner='u2', auth='u3'), 'W2': A(owner='u1', auth='u3'), 'V1': vault('M1', 1),
               'M1': {'k': 'mint', 'own': 'TOKEN', 'std': 0, 'at': 't1v', 'xl': 0}, 'D1': meta('M1')},
      'steps': [no(brg('W2', 'u1', 't11', ['u1', 'u5'])), ok(brg('W1', 'u2', 't12', ['u2', 'u5']))],
      'final': {'W2': {'owner': 'u1'}, 'W1': {'owner': 'V1'}, 'M1': {'at': 't12'}}}])

def bcr(sg, col='-'): return I('BCreate', ['W1', 'V1', 'M1', 'D1', 'u3', col, 'u5', 'SYS', 'NIFTY'], sg, via='BRIDGE', col=False)
bug('collection-claimed', 'P20', 'the metadata of a mint claims a collection that has not verified it',
    'an unverified collection is enough to create the bridge asset without the update authority',
    [('programs/bridge/src/processor/create.rs', '''        !verified
    } else {''', '''        !verified && ctx.accounts.collection.is_none()
    } else {''')],
    [{'init': {'W1': NONE, 'V1': NONE, 'M1': {'k': 'mint', 'own': 'TOKEN', 'std': 0, 'at': 't11', 'xl': 0}, 'D1': meta('M1', col='M2'),
               'W2': A(owner='V2', auth='u3')},
      'steps': [no(bcr(['u5'], 'W2')), ok(bcr(['u3', 'u5']))], 'final': {'W1': {'k': 'asset', 'owner': 'V1', 'auth': 'u3'}}}])

def pcr(owner, auth, sg): return I('PCreate', ['Z', 'k1', owner, auth, 'u5', 'SYS', 'NIFTY'], sg, via='PROXY', name=[65])
def pname(u, sg, n): return I('Update', ['Z', u, '-', '-', '-', '-', 'NIFTY'], sg, via='PROXY', hn=True, name=n, hm=False, mut=False, he=False, e={'t': 0, 'n': 0, 'hd': False, 'd': []})
bug('owner-is-authority', 'P21', 'a proxied asset whose owner is also its proxy authority is updated by somebody else',
    'the signature of the proxy authority is not asked for when it is the owner of the asset',
    [('programs/proxy/src/processor/update.rs', '''    require!(
        ctx.accounts.authority.is_signer,''', '''    let owned = data[4..36] == ctx.accounts.authority.key.to_bytes();

    require!(
        ctx.accounts.authority.is_signer || owned,''')],
    [{'init': {'Z': NONE}, 'steps': [ok(pcr('u2', 'u2', ['k1', 'u2', 'u5'])), no(pname('u2', ['u4'], [66])), no(pname('u4', ['u4'], [66]))],
      'final': {'Z': {'name': [65]}}},
     {'init': {'Z': NONE}, 'steps': [ok(pcr('u1', 'u2', ['k1', 'u2', 'u5'])), no(pname('u2', ['u4'], [66])), ok(pname('u2', ['u2'], [67]))],
      'final': {'Z': {'name': [67]}}}])

JSA = 'clients/js/asset/src/'
JS_HEAD = '''import assert from 'node:assert';
import * as asset from 'nifty-asset-js';
import { createNoopSigner, testContext } from './umi.js';
const key = (n) => 'AssetGtQBTSgm5s91d1RAQod5JmaZiJDxqsgtqrZud7' + '23456'[n];
'''
bug('property-by-name', 'P26', 'an asset has two properties of the same name and different types, and the second one is looked up',
    'the lookup takes the first property of the name and compares the type only then, so the other one is not found',
    [(JSA + 'extensions/properties.ts', '''    (p) => 'type' in p && p.type === type && p.name === name
  );

  return property ? (property''', '''    (p) => 'type' in p && p.name === name
  );

  return property?.type === type ? (property''')],
    js=JS_HEAD + '''
const e = { ...asset.properties([{ name: 'level', value: 'high' }, { name: 'level', value: 7n }, { name: 'open', value: true }]) };
const a = { extensions: [e] };
assert.strictEqual(asset.getProperty(a, 'level', asset.Type.Text).value, 'high');
assert.strictEqual(asset.getProperty(a, 'level', asset.Type.Number).value, 7n);
assert.strictEqual(asset.getProperty(a, 'level', asset.Type.Boolean), undefined);
''')
bug('unknown-extension-ends', 'P26', 'an account has an extension of a type this client does not know before one it knows',
    'reading stops at the unknown extension, so the ones after it are missing',
    [(JSA + 'hooked/internalAssetAccountData.ts', '''      if (type === ExtensionType.None) {''', '''      if (!type || !ExtensionType[type]) {''')],
    js=JS_HEAD + '''
const header = (t, n, b) => { const v = new DataView(new ArrayBuffer(16)); [t, n, b, 0].forEach((x, i) => v.setUint32(4 * i, x, true)); return new Uint8Array(v.buffer); };
const base = new Uint8Array(168); base[0] = 1;
const data = Uint8Array.from([...base, ...header(11, 3, 192), 1, 2, 3, 0, 0, 0, 0, 0, ...header(200, 8, 216), 9, 9, 9, 9, 9, 9, 9, 9, ...header(2, 2, 240), 0, 5, 0, 0, 0, 0, 0, 0]);
const a = asset.deserializeAsset({ publicKey: key(0), exists: true, executable: false, owner: asset.ASSET_PROGRAM_ID, lamports: 0, data });
assert.deepStrictEqual(a.extensions.map((e) => e.type), [11, 2]);
''')
bug('buffered-immutable', 'P27', 'an update makes an asset immutable and replaces an extension too large for one instruction',
    'the mutable flag of a buffered update is lost when it is false',
    [(JSA + 'updateWithBuffer.ts', '''      buffer: buffer.publicKey,
''', '''      buffer: buffer.publicKey,
      mutable: input.mutable || none(),
''')],
    js=JS_HEAD + '''
const context = () => testContext({ identity: createNoopSigner(key(0)), payer: createNoopSigner(key(1)), generated: [key(2)] });
const updates = (n, mutable) => asset.updateWithBuffer(context(), { asset: key(3), mutable, extension: asset.bucket(new Uint8Array(n)) })
  .builders.flatMap((b) => b.items).map((i) => i.instruction.data).filter((d) => d[0] === 10);
for (const n of [5, 850, 851, 3000]) for (const m of [true, false]) {
  const [d] = updates(n, m);
  // tag, no name, mutable given
  assert.deepStrictEqual(Array.from(d.slice(0, 4)), [10, 0, 1, m ? 1 : 0]);
}
''')
bug('proxied-payer', 'P27', 'an asset is resized through a proxy and the payer is left out',
    'the identity pays instead of the payer of the context when the instruction goes through a proxy',
    [(JSA + 'resize.ts', '''  let ix = baseResize(context, input);''', '''  let ix = baseResize(
    context,
    input.proxy ? { payer: context.identity, ...input } : input
  );''')],
    js=JS_HEAD + '''
const context = testContext({ identity: createNoopSigner(key(0)), payer: createNoopSigner(key(1)), generated: [] });
for (const proxy of [undefined, key(4)]) {
  const ix = asset.resize(context, { asset: key(3), strategy: asset.strategy('Extend', { value: 8 }), ...(proxy ? { proxy } : {}) }).items[0].instruction;
  assert.strictEqual(ix.keys[1].pubkey, key(0));
  assert.strictEqual(ix.keys[2].pubkey, key(1));
}
''')
bug('idl-spaces', 'P25', 'a string of the IDL has several spaces in a row',
    'the IDL is made smaller by joining its words with single spaces before it is compressed, which also happens inside strings',
    [('include-idl/src/shrink.rs', '''    // Compress the JSON contents using zlib.''', '''    // Drop the indentation.
    let json_contents = json_contents
        .split_whitespace()
        .collect::<Vec<_>>()
        .join(" ");

    // Compress the JSON contents using zlib.''')],
    deps='solana-include-idl = { path = "/repo/include-idl", features = ["shrink"] }\nflate2 = "1.0"\nserde_json = "1"\n',
    crate='''use std::io::Read;
fn main() {
    let dir = std::env::temp_dir().join(format!("idl-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (from, to) = (dir.join("a.json"), dir.join("a.zip"));
    let text = "{\\n  \\"docs\\": [\\"one two\\", \\"a  table   of\\", \\"\\"],\\n  \\"n\\": 1\\n}";
    std::fs::write(&from, text).unwrap();
    solana_include_idl::compress_idl(&from, &to);
    let zip = std::fs::read(&to).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    let mut back = String::new();
    flate2::read::ZlibDecoder::new(&zip[..]).read_to_string(&mut back).unwrap();
    let v = |s: &str| serde_json::from_str::<serde_json::Value>(s).unwrap();
    assert_eq!(v(&back), v(text));
}
''')

bug('delegate-not-found', 'P28', 'an asset with a delegate and no manager is locked by somebody else',
    'locking an asset that has a delegate is refused with "delegate not found"',
    [('programs/asset/program/src/utils.rs', """            } else {
                result
            }
        },""", """            } else {
                Err(AssetError::DelegateNotFound.into())
            }
        },""")],
    [{'init': {'A': A()}, 'steps': [ok(approve('A', 'u1', 'u2', [2])), no(I('Lock', ['A', 'u3'], ['u3']), 10), no(I('Lock', ['A', 'u1'], ['u1']), 10),
        ok(I('Lock', ['A', 'u2'], ['u2']))], 'final': {'A': {'st': 1}}}])
bug('remove-group-code', 'P28', 'the grouping extension of a group with members is removed',
    'removing the grouping extension of a group that is not empty is refused because the extension is said to be missing',
    [(PR + 'remove.rs', """            AssetError::GroupNotEmpty,""", """            AssetError::ExtensionNotFound,""")],
    [{'init': {'A': A(), 'G': A(exts=[X(6, grouping(0, 2))])}, 'steps': [ok(I('Group', ['A', 'G', 'u1'], ['u1'])),
        no(I('Remove', ['G', 'u1', '-', 'u6'], ['u1'], t=6), 19)], 'final': {'A': {'group': 'G'}}}])
