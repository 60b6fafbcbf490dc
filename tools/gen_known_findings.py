import json,subprocess,re
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse','074b22e..HEAD'],text=True).strip().split('\n')
M="""Int::little_endian pads|C07|an encoding shorter than the requested minimum was not padded
Int::big_endian right|C07|values shorter than the modulus were left-aligned
Int::div|C06|division multiplied
Int::exp raises|C06|the receiver's old value was raised instead of the argument
Int normalizes|C06|negative and oversized values stayed outside 0..m
Int::unmarshal_binary leaves|C07|a rejected encoding changed the receiver
Int::sqrt|C06|the square root ignored the modulus
FactoredScalar operations|C01|results were computed and dropped
SimpleCTScalar::sub|C01|b - a instead of a - b
SimpleCTScalar and FactoredScalar use|C02|encodings were not those of Scalar
Point::is_canonical|C04|canonical encodings with large y were called non-canonical
Point::unmarshal_binary leaves|C04|a rejected encoding left an invalid point in the receiver
order points|C04|equal points compared as different in order
multiply points correctly|C03|scalars of 2^255 and more gave wrong multiples
deserializing a point|C04|serde produced points off the curve
EdDSA built from a key pair|C08|nonces depended on public data only
encoding an EdDSA key|C08|panic for a signer without a seed
public polynomials of different length|C12|panic or equality with a prefix
evaluating a public polynomial|C12|panic without commitments
recover_pub_poly|C12|indices of the shares were ignored
ECIES decryption|C14|panic for a short ciphertext
sealing or opening|C13|panic for a destination of another length
flushing an XOF|C15|panic (unimplemented)
writing to an XOF after reading|C15|write_all never returned
random bits and integers|C16|a failed stream yielded predictable values
a deal must carry exactly|C17|deals with more or fewer commitments than the threshold were approved
an encrypted deal with a nonce|C17|panic for a nonce of another length
a verifier's expected threshold|C17|the deal's threshold replaced the one the verifier was told to require
a DKG with the default|C21|threshold 0 in the configuration was never replaced in the verifiers
a deal without known threshold|C18|an aggregator without threshold certified, or underflowed
a deal naming another session|C17|a deal whose session identifier is not that of its content was approved
responses of other sessions recorded|C18|responses of another session recorded before the deal counted for certification
a valid justification turns|C19|a justified complaint stayed a complaint, the deal was never certified
a justification counts only if|C19|anybody's justification, for any session and any share, was accepted
a justified complainer uses|C19|the complainer kept its invalid deal; a verifier without a deal kept another participant's
deals with other commitments|C17|a justification revealing a deal of another polynomial was accepted
a dealer counts|C19|the dealer's own view stayed uncertified after its justification
a DKG with duplicate nodes|C21|handler without verifiers, later panics
a resharing deal without commitments|C23|panic on an empty commitment list
rejecting a resharing deal|C23|the node's own approval stayed recorded next to its complaint
a justification cannot qualify|C23|a resharing deal of another secret became qualified by its justification
a leaving node counts|C23|responses naming nodes that deal nothing, or other sessions, were counted
renewing with a share|C24|panic or silent truncation for another threshold
the Rabin DKG timeout|C22|a node never timed out its own deal
secret commits and reconstruct|C28|secret and reconstruct commits could be replayed from another session
reconstruct commits must belong|C22|shares of other participants or sessions entered the reconstruction
complaints about commitments|C22|a node that rejected commitments itself could not follow the complaint
a node's own share counts|C22|reconstruction never happened if the own share came last
secret commits of wrong length|C22|too short commitments, or ones already invalidated, were accepted
a node's own partial|C25|the own partial signature was counted twice
the debug rendering of an EdDSA|C29|seed, secret and prefix were printed
a Rabin DKG requires|C22|deals of another threshold than the DKG's qualified, honest nodes reconstructed different keys
a deal with an invalid threshold|C18|a Rabin deal with threshold 0 was certified without a single approval
a Rabin verifier does not use|C20|a verifier that complained used its invalid share once others approved
a dealer does not respond|C21|a dealer's complaint about its own deal counted at nodes it reached before the deal, and split the honest nodes
a dealer's implicit approval|C21|nodes that missed a dealer's deal disagreed with the others on the qualified set
a justification counts only in its|C28|a node still waiting for its deal accepted a justification of another session or polynomial
is_in_qual of a leaving|C23|a leaving node's is_in_qual denied dealers its qual() lists
"""
fixed=[]
used=set()
for l in M.strip().split('\n'):
    k,p,w=l.split('|')
    hit=[x for x in log if x.split(' ',2)[2].startswith(k)]
    assert len(hit)==1,(k,hit)
    h=hit[0].split()[0]; used.add(h)
    fixed.append(f"fixed: property={p} {h} {w}")
for x in log:
    if x.split()[0] not in used: print('UNMAPPED',x)
F=[{"property":"C19","signature":"forged-justification-frames-dealer","what":"a justification that the dealer did not sign and whose deal does not verify is rejected but still marks the dealer as bad (both variants; the tests test_vss_aggregator_verify_justification require it)"},
{"property":"C22","signature":"rabin-omitted-deal-splits-qualified-set","what":"a Rabin DKG dealer that sends its deal to at least threshold nodes but not to all splits the honest nodes: those without the deal cannot process anybody's responses about that dealer (ComplaintWithoutDeal) and leave it out of the qualified set, the others keep it, so they compute different keys"},
{"property":"C28","signature":"forged-justification-frames-dealer","what":"the same defect as listed for C19, seen in a complete key generation: an altered justification of an open complaint is rejected but disqualifies its dealer"},
{"property":"C28","signature":"predeal-foreign-response-occupies-slot","what":"Pedersen: before a node has a dealer's deal it cannot tell that dealer's session, so a response its author signed in another session (or about another dealer) is stored and the author's true response is then rejected as a duplicate until the deal has arrived and the response is delivered again"}]
json.dump({"findings":F,"fixed":fixed},open('/verif/known-findings.json','w'),indent=1)
print(len(fixed),len(log))
