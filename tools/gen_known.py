#!/usr/bin/env python3
"""Writes known_findings.json: the findings recorded (none is suppressed unless
it is listed in FINDINGS) and the defects repaired in /repo with their commits."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = """
P11 9999e66 a NUL byte in a reply was taken for the end of the input: the rest of the reply was dropped without an error
P03 830e7d1 an escaped separator at the end of a segment or a group lost its escape, so the element ran into its neighbour
P04 9c5022f a group whose values contain escaped separators was split at them
P11 30d4856 the announced length of binary data was not checked (slice out of range, or too little data taken)
P04 f370121 texts and identifiers received from the bank kept their escape characters and were sent back escaped twice
P08 7db679e account limits and allowed business transactions after the first were lost
P13 3d23a48 a synchronisation went on with the previous dialog's message number and named two different customer system IDs
P02 b269403 a dialog whose opening reply could not be used was never ended
P10 c4b6da8 read errors behind the logging middleware were dropped, a truncated reply was evaluated
P10 b84d9a4 replies that end before the message end segment were evaluated
P20 09921c1 the bodies of HTTP responses were never closed
P20 4a5c66e HTTP error statuses were evaluated as bank replies
P14 7fd5339 setting the PIN reset the security function
P14 8b48795 the security function depended on map iteration order
P14 a6b17a0 the permitted security functions were ignored while the parameter data were unchanged
P08 6ad413b accounts were appended again whenever the bank sent the user parameter data again
P09 0e715d7 the bank's reason was lost when the accounts could not be fetched
P24 f6f00a4 the communication parameters of an access information were not read
P24 ff3fa19 a reply without acknowledgements was taken for a successful answer
P06 507cfe5 the transactions of a continued query came in the wrong order
P05 2394662 a query without bookings returned a fabricated transaction
P05 c70f521 balances around a transaction lost their sign
P05 ec82107 reversed bookings had the wrong sign
P05 8ece4a7 the years of bookings depended on the wall clock
P05 be42dad bookings without booking date lost their debit mark
P16 fe35eea SEPA account transactions were reported as unsupported
P18 dbecf11 later pages of a SEPA transactions query asked a different query
P06 eddf12b a missing continuation reference made a query end silently
P07 5bf7d0b only the first page of account balances was fetched
P07 6dc70d4 the booking time of a balance was put on the wrong day
P16 c9f56a9 status queries were always sent in version 3
P23 35e60ed status entries did not carry the bank's transmission time
P23 37386cf only the first page of status entries was fetched
P11 b2160ac segments lacking mandatory elements crashed the client
P11 d33b28e compression methods, certificates, custom signatures and disposal eligible persons could not be read
P11 81d290d malformed statements and replies crashed the client
P11 0bffd12 a statement without account and without transactions crashed the query
P03 4796205 texts which cannot be encoded crashed the client, and left a gap in the message numbers
P21 da8ed4f a bank without known URL gave a client that talks to nowhere
P21 1b5f254 listings without access address hid the one with it
P21 44e6d9e blanks inside listed addresses made them unusable
P25 560067d account numbers of less than ten digits gave wrong IBANs
P25 5af059b account numbers that are no numbers were sent as IBANs
P22 4dac427 values with quotes or backslashes broke or altered the generated directory
P22 cbccd02 a failing close of the generated directory went unnoticed
""".strip().splitlines()
fixed = []
for l in FIXED:
    p, h, what = l.split(' ', 2)
    fixed.append(f"fixed: property={p} {h} {what}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
