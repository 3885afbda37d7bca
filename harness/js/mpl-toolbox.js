// Stand-in for '@metaplex-foundation/mpl-toolbox'.
import { publicKeyBytes } from './umi.js';
export const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export const findAssociatedTokenPda = (context, { mint, owner, tokenProgramId }) =>
  context.eddsa.findPda(ATA, [owner, tokenProgramId ?? TOKEN, mint].map(publicKeyBytes));
