"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'jaxite/jaxite_cggi/'
B = 'jaxite/jaxite_bool/'
K = 'jaxite/jaxite_ckks/'
E = 'jaxite_ec/'
TESTS = 'The tests run a few fixed or seeded inputs; the claim is over every '

P = []


def prop(pid, title, statement, qtext, why, files, mech, over=('inputs',),
         note=None):
  assert len(title) <= 80, title
  P.append(dict(id=pid, title=title, statement=statement,
                quantifier=dict(over=list(over), text=qtext),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech]), _note=note))


prop('C01', 'Torus encoding and decoding are inverse under bounded noise',
     'Encoding a message and decoding it after adding any noise smaller than '
     'half a message step returns the message, and noise removal returns the '
     'exact encoded value. Messages outside the range the parameters allow are '
     'refused, messages inside are accepted.',
     'every message, every noise value inside the half step, every parameter '
     'triple in the stated list',
     TESTS + 'message and noise value, including the two ends of each cell.',
     [C + 'encoding.py'],
     [('encode/decode/remove_noise', C + 'encoding.py')],
     ('inputs', 'configurations'))
prop('C02', 'LWE encryption, decryption and homomorphic operations agree',
     'Decrypting a fresh LWE ciphertext gives the plaintext plus exactly the '
     'noise that was drawn, and the correct message when that noise is inside '
     'the cell. Adding, subtracting and scaling ciphertexts acts the same way '
     'on the plaintexts, and switching the modulus moves the decrypted value '
     'by at most the accumulated rounding.',
     'every plaintext, key, mask and noise', TESTS +
     'key, mask, noise and plaintext.', [C + 'lwe.py'],
     [('encrypt/decrypt', C + 'lwe.py'), ('switch_modulus', C + 'lwe.py')],
     ('inputs', 'configurations'))
prop('C03', 'RLWE and RGSW ciphertexts hold the message under the key',
     'A fresh RLWE encryption decrypts to the plaintext polynomial plus '
     'exactly the drawn noise, coefficient by coefficient. Every row of a '
     'fresh RGSW encryption decrypts to the message times the gadget factor '
     '(and the negated key component) that belongs to that row.',
     'every message polynomial, key, mask and noise', TESTS +
     'key, mask and message; row layout mistakes can cancel on samples.',
     [C + 'rlwe.py', C + 'rgsw.py'],
     [('encrypt', C + 'rlwe.py'), ('encrypt', C + 'rgsw.py')],
     ('inputs', 'configurations'))
prop('C04', 'Gadget decomposition recomposes to the value',
     'Recombining the digits of a decomposition gives back the value up to '
     'the part below the last level, rounded to the nearest representable '
     'value in the signed form. Every digit lies in the range the base '
     'promises, and scalar, vector and reversed forms agree.',
     'every 32-bit value, every listed base and level count', TESTS +
     '32-bit word; carries that ripple through all digits are single values.',
     [C + 'decomposition.py'],
     [('decompose/signed decomposition', C + 'decomposition.py')],
     ('inputs', 'configurations'))
prop('C05', 'Negacyclic polynomial arithmetic is exact in the coefficient ring',
     'Products of polynomials, monomial shifts, matrix and vector products '
     'used by the torus scheme equal the mathematical result modulo x^N+1 and '
     'the coefficient modulus, whichever of the offered multiplication routes is taken. Rounding '
     'division returns the nearest integer.',
     'every coefficient value, shift and divisor', TESTS +
     'coefficient; limb splitting and wrap-around only fail on rare values.',
     [C + 'matrix_utils.py'],
     [('polynomial multiplication', C + 'matrix_utils.py'),
      ('monomial multiplication', C + 'matrix_utils.py')],
     ('inputs', 'configurations'))
prop('C06', 'External product and CMUX select and multiply correctly',
     'The external product of an RGSW encryption with an RLWE encryption '
     'decrypts to the product of the messages up to the decomposition error. '
     'A CMUX decrypts to the first or second ciphertext according to the '
     'encrypted bit.',
     'every ciphertext, key, control bit', TESTS +
     'ciphertext and key; tests use one seeded key and small messages.',
     [C + 'bootstrap.py', C + 'rgsw.py'],
     [('external_product/cmux', C + 'bootstrap.py')],
     ('inputs', 'configurations'))
prop('C07', 'Blind rotation rotates by the phase of the LWE ciphertext',
     'A bootstrapping key holds, for every LWE key, encryptions of that key in '
     'the layout the rotation expects. Blind rotation multiplies the test '
     'polynomial by x to the minus phase of the input, with and without key '
     'unrolling.',
     'every LWE key, ring key, mask and exponent vector', TESTS +
     'key/exponent combination.',
     [C + 'bootstrap.py'],
     [('gen_bootstrapping_key', C + 'bootstrap.py'),
      ('blind_rotate', C + 'bootstrap.py')], ('inputs', 'configurations'))
prop('C08', 'Sample extraction and key switching keep the phase',
     'Extracting the constant coefficient gives an LWE ciphertext whose phase '
     'under the flattened ring key is the constant coefficient of the ring '
     'phase. Switching keys leaves the phase unchanged up to the truncated '
     'digits and the key noise.',
     'every ciphertext, input key, output key, mask', TESTS +
     'ciphertext and key pair.', [C + 'key_switch.py', C + 'bootstrap.py'],
     [('switch_key/gen_key', C + 'key_switch.py'),
      ('sample_extract', C + 'bootstrap.py')], ('inputs', 'configurations'))
prop('C09', 'Functional bootstrapping evaluates the lookup table',
     'A test polynomial built from a table holds the value for message m over '
     'the whole block of positions that round to m, negated past the end. '
     'Bootstrapping returns an encryption, under the original key, of the test '
     'polynomial coefficient at the rounded phase of the input.',
     'every table, input ciphertext, key and rounding remainder', TESTS +
     'table, phase and rounding remainder.',
     [C + 'test_polynomial.py', C + 'bootstrap.py'],
     [('gen_test_polynomial', C + 'test_polynomial.py'),
      ('bootstrap', C + 'bootstrap.py')], ('inputs', 'configurations'))
prop('C10', 'Encrypted Boolean gates compute their truth tables',
     'For every gate and lookup-table call, decrypting the result gives the '
     'Boolean function of the decrypted inputs, for chained gates too, as '
     'long as noise stays inside the message cell. Encrypting and decrypting a '
     'bit returns it, and the server keys encrypt the client keys under each '
     'other.',
     'every input bit, truth table, key, mask, and noise inside the cell',
     'The Boolean API tests do not run here within the stable set, and would '
     'sample single encryptions with tiny noise.',
     [B + 'jaxite_bool.py', B + 'lut.py', B + 'bool_params.py'],
     [('gates and LUTs', B + 'jaxite_bool.py'),
      ('truth tables', B + 'lut.py')], ('inputs', 'programs'))
prop('C11', 'Bit-slice conversions and lookup-table builders are faithful',
     'Converting integers, byte lists and text to bit slices and back returns '
     'the original, least significant bit first, and malformed lengths are '
     'refused. A lookup table built from a Boolean function, by name or from '
     'an integer, has exactly that function as its rows.',
     'every integer, byte list, text and truth table of the stated size',
     'No test covers the converters; LUT tests use a few tables.',
     [B + 'type_converters.py', B + 'lut.py'],
     [('bit slice converters', B + 'type_converters.py'),
      ('LookUpTable', B + 'lut.py')], ('inputs', 'configurations'))

prop('K01', 'Residue arithmetic kernels return the reduced residue',
     'For every modulus and every operand the kernels accept, modular '
     'addition, subtraction, multiplication and reduction return the unique '
     'residue in [0, q) that is congruent to the mathematical result.',
     'every operand in the documented input range', TESTS +
     'operand; off-by-one quotient errors show up on isolated values.',
     [K + 'barrett.py', K + 'add.py', K + 'mul.py', K + 'math.py'],
     [('modular_reduction', K + 'barrett.py'), ('kernels', K + 'mul.py')],
     ('inputs', 'configurations'))
prop('K02', 'Byte-sliced matrix products equal the exact modular product',
     'Multiplying residues by a fixed matrix through byte decomposition gives '
     'a value congruent to the exact product modulo each modulus, with no '
     'intermediate overflow.',
     'every residue vector, stated matrix sizes', TESTS +
     'input vector; carries and overflow need extreme operands.',
     [K + 'bat_utils.py'],
     [('byte-aligned matmul', K + 'bat_utils.py')],
     ('inputs', 'configurations'))
prop('K03', 'NTT is the negacyclic transform and its inverse undoes it',
     'The forward transform evaluates the polynomial at the odd powers of the '
     'chosen root, the inverse transform undoes it exactly, and pointwise '
     'products correspond to multiplication modulo x^N+1. Accelerator and '
     'reference transforms agree.',
     'every residue polynomial, stated degrees and moduli', TESTS +
     'polynomial.',
     [K + 'ntt.py', K + 'ntt_cpu.py'],
     [('forward/inverse transform', K + 'ntt.py'),
      ('reference transform', K + 'ntt_cpu.py')],
     ('inputs', 'configurations'))
prop('K04', 'Residue number system conversion is a bijection',
     'Reconstructing an integer from its residues returns the integer (in the '
     'centred range where signed), and splitting a reconstructed value returns '
     'the residues.',
     'every integer in range, stated bases', TESTS + 'integer in range.',
     [K + 'rns_utils.py', K + 'rns.py'],
     [('crt', K + 'rns_utils.py')], ('inputs', 'configurations'))
prop('K05', 'RNS basis conversion keeps the value up to a basis multiple',
     'Converting residues from one basis to another yields residues of the '
     'same integer plus a bounded multiple of the source modulus product, and '
     'all outputs are fully reduced.',
     'every residue vector of the stated bases', TESTS + 'residue vector.',
     [K + 'basis_conversion.py'],
     [('basis conversion', K + 'basis_conversion.py')],
     ('inputs', 'configurations'))
prop('K06', 'RNS polynomials form the ring they represent',
     'Addition, subtraction, negation and polynomial multiplication of '
     'RNS polynomials act as the operation in Z_q[x]/(x^N+1) in every '
     'residue, in coefficient and evaluation form, and results stay reduced.',
     'every coefficient, stated degrees and moduli', TESTS + 'coefficient.',
     [K + 'rns.py'],
     [('RnsPolynomial operations', K + 'rns.py')],
     ('inputs', 'configurations'))
prop('K07', 'CKKS encryption and decryption invert each other up to noise',
     'Decrypting an encryption returns the plaintext polynomial plus exactly '
     'the terms contributed by the drawn randomness, modulo every prime. '
     'Generated public and secret keys satisfy their defining relation.',
     'every plaintext, secret, mask and error', TESTS +
     'plaintext and key.', [K + 'encrypt.py', K + 'key_gen.py'],
     [('encrypt/decrypt', K + 'encrypt.py'), ('key generation',
                                              K + 'key_gen.py')],
     ('inputs', 'configurations'))
prop('K08', 'Ciphertext multiplication and relinearisation keep the product',
     'The product of two ciphertexts decrypts, under the key and its square, '
     'to the product of their decryptions. Relinearised products decrypt under '
     'the key alone to the same value up to key-switching error.',
     'every pair of ciphertexts', TESTS + 'pair of ciphertexts.',
     [K + 'mul.py'], [('tensor product', K + 'mul.py'),
                      ('relinearisation', K + 'mul.py')],
     ('inputs', 'configurations'))
prop('K09', 'Rescaling divides by the dropped modulus with bounded error',
     'After dropping the last modulus, each residue equals the integer nearest '
     'quotient the scheme promises, is fully reduced, and the metadata of the '
     'result matches.',
     'every residue vector, stated moduli', TESTS +
     'residue; correctness depends on the relation between moduli.',
     [K + 'rescale.py'], [('rescale', K + 'rescale.py')],
     ('inputs', 'configurations'))
prop('K10', 'CKKS key switching and conjugation act as automorphisms',
     'Key switching returns a ciphertext that decrypts under the target key to '
     'the value under the source key up to bounded error. Conjugation and '
     'rotation permute and negate coefficients as the ring automorphism does.',
     'every ciphertext and key', TESTS + 'ciphertext and key.',
     [K + 'key_switching.py', K + 'conjugate.py'],
     [('key switch', K + 'key_switching.py'), ('conjugate',
                                               K + 'conjugate.py')],
     ('inputs', 'configurations'))
prop('K11', 'CKKS blind rotation selects and rotates as specified',
     'The homomorphic multiplexer returns the selected accumulator and the '
     'rotation multiplies by the monomial with the encrypted exponent.',
     'every accumulator, exponent and selector', TESTS +
     'exponent and accumulator.',
     [K + 'blind_rotate.py', K + 'blind_rotate_utils.py'],
     [('blind rotate', K + 'blind_rotate.py')], ('inputs', 'configurations'))

prop('E01', 'Multi-limb integer arithmetic is exact',
     'Addition, subtraction, comparison and multiplication of limb vectors '
     'return the limb vector of the exact integer result for every operand '
     'that fits the representation.',
     'every limb value (carries and borrows of any length)', TESTS +
     'limb value; long carry chains have negligible probability.',
     [E + 'finite_field.py'],
     [('limb add/sub/compare/multiply', E + 'finite_field.py')],
     ('inputs', 'configurations'))
prop('E02', 'Barrett modular multiplication returns the residue',
     'For all operands below the field modulus, Barrett multiplication and '
     'reduction return the unique residue of the product.',
     'every operand below the modulus', TESTS + 'operand pair.',
     [E + 'finite_field.py'], [('mod_mul_barrett', E + 'finite_field.py')])
prop('E03', 'Lazy modular reduction stays congruent and in range',
     'Lazily reduced products and sums are congruent to the exact value modulo '
     'the field prime and stay inside the range the next operation accepts.',
     'every operand in the lazy range', TESTS + 'operand pair.',
     [E + 'finite_field.py'], [('lazy reduction', E + 'finite_field.py')])
prop('E04', 'RNS field arithmetic represents the field operation',
     'Addition, subtraction, negation and multiplication on residue vectors '
     'represent the field operation modulo the prime, within the stated '
     'representation range.',
     'every residue vector in the stated range', TESTS + 'residue vector.',
     [E + 'finite_field.py', E + 'algorithm/rns_mod_reduce.py'],
     [('RNS kernels', E + 'finite_field.py')])
prop('E05', 'Number representation conversions are lossless',
     'Packing integers, lists and points into limb or residue arrays and back '
     'returns the originals for every value that fits.',
     'every integer of the stated widths', TESTS + 'integer.',
     [E + 'util.py', E + 'algorithm/util.py'],
     [('converters', E + 'util.py')], ('inputs', 'configurations'))
prop('E06', 'XYZZ point operations follow the Weierstrass group law',
     'Adding and doubling points in extended coordinates, on every arithmetic back end, packed or not, gives '
     'the point the affine group law defines, for every pair of curve points '
     'the formula accepts.',
     'every pair of points and every projective scaling', TESTS +
     'pair of points, always with the same scaling.',
     [E + 'elliptic_curve.py'], [('xyzz formulas', E + 'elliptic_curve.py')])
prop('E07', 'Twisted Edwards point operations follow the group law',
     'Adding, doubling and negating points in extended Edwards coordinates '
     'gives the point the affine law defines, for every pair of curve points '
     'at which the law is defined.',
     'every pair of points and every projective scaling', TESTS +
     'pair of points.', [E + 'elliptic_curve.py'],
     [('twisted formulas', E + 'elliptic_curve.py')])
prop('E08', 'Multi-scalar multiplication sums every point the right times',
     'The bucket method returns the sum of each point times its scalar, for '
     'every scalar below the bound, every number of points and every window '
     'layout.',
     'every scalar vector and window configuration', TESTS +
     'scalar vector; the MSM tests are outside the stable set.',
     [E + 'pippenger.py', E + 'pippenger_rns.py'],
     [('bucket accumulation', E + 'pippenger.py'),
      ('window merge', E + 'pippenger.py')],
     ('inputs', 'configurations'))
prop('E09', 'Reference field classes implement prime-field arithmetic',
     'Every operation of the plain, Barrett, Montgomery and lazy reference '
     'field elements returns the canonical element the mathematical field '
     'operation defines, whatever sequence of operations produced the inputs.',
     'every element value', TESTS + 'element, and never the ends of the range.',
     [E + 'algorithm/finite_field.py', E + 'algorithm/big_integer.py',
      E + 'algorithm/lazy_reduction.py'],
     [('field elements', E + 'algorithm/finite_field.py')],
     ('inputs', 'histories'))
prop('E10', 'Reference curve classes implement the group law',
     'Addition, doubling, negation and coordinate conversion of the reference '
     'curve classes agree with the affine group law in every supported '
     'coordinate system.',
     'every pair of points', TESTS + 'pair of points.',
     [E + 'algorithm/elliptic_curve.py'],
     [('curve classes', E + 'algorithm/elliptic_curve.py')])

NA = {
    'S01': None,
}
prop('S01', 'Slot encoding reproduces the message to scheme precision',
     'Encoding complex slots into a polynomial and decoding returns the slots '
     'within the precision the scaling factor implies.',
     'every slot vector', TESTS + 'slot vector.', [K + 'encode.py'],
     [('encode/decode', K + 'encode.py')])
prop('S02', 'Sampled noise and keys follow the intended distributions',
     'Randomness sources deliver independent samples of the configured '
     'distribution, so that ciphertexts hide their messages.',
     'every seed', 'Distribution claims are statistical.',
     [C + 'random_source.py', K + 'random.py'],
     [('samplers', C + 'random_source.py')])

REASON = {
    'S01': 'floating-point FFT over 64/128-bit complex numbers: the solver '
           'theories at hand cannot bound the accumulated rounding of a real '
           'FFT, and sampling would be a different technique',
    'S02': 'a statistical statement about a pseudo-random generator; no '
           'first-order bounded assertion expresses it',
}
LEVEL = {}


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      q = {k: v for k, v in p.items() if not k.startswith('_')}
      f.write(json.dumps(q) + '\n')
  checks, na = [], []
  for p in P:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
      checks.append(dict(
          property=i, quick_cmd=f'./check.sh {i} quick',
          thorough_cmd=f'./check.sh {i} thorough',
          technique='symbolic execution of the real code (traced IR) with an '
                    'SMT solver deciding each goal, counterexamples replayed',
          level='other',
          level_note='bounded: every input value inside the bounds listed in '
                     'the evidence file; sizes and parameter sets are fixed '
                     'lists'))
    else:
      na.append(dict(property=i, reason=REASON.get(
          i, 'check not built yet in this revision')))
  m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
