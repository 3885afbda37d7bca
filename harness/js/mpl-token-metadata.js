// Stand-in for '@metaplex-foundation/mpl-token-metadata'.
import { publicKeyBytes } from './umi.js';
const TM = 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s';
const text = (s) => new TextEncoder().encode(s);
export const TokenStandard = {};
['NonFungible', 'FungibleAsset', 'Fungible', 'NonFungibleEdition', 'ProgrammableNonFungible', 'ProgrammableNonFungibleEdition']
  .forEach((n, i) => { TokenStandard[n] = i; TokenStandard[i] = n; });
export const findMetadataPda = (context, { mint }) => context.eddsa.findPda(TM, [text('metadata'), publicKeyBytes(TM), publicKeyBytes(mint)]);
export const findMasterEditionPda = (context, { mint }) =>
  context.eddsa.findPda(TM, [text('metadata'), publicKeyBytes(TM), publicKeyBytes(mint), text('edition')]);
export const findTokenRecordPda = (context, { mint, token }) =>
  context.eddsa.findPda(TM, [text('metadata'), publicKeyBytes(TM), publicKeyBytes(mint), text('token_record'), publicKeyBytes(token)]);
