#!/usr/bin/env python3
# Writes known_findings.json; run by hand only.
import json
cfg={"salt":0,"npools":1,"nusers":3,"start":1660000000,"shared_dep":False,"shared_dist":False,"shared_mint":False,"fill_is_dep":False,"dist_is_dep":False}
D=86400; t=1660000000
def s(at,*ops,**k): return dict(at=at,ops=list(ops),**k)
ip={"op":"InitPool","p":0}
def im(u): return {"op":"InitMining","p":0,"u":u,"by_user":False}
def fill(a,e): return {"op":"Fill","p":0,"amount":a,"ends":e}
def dep(u,eid,a,per,d=None): return {"op":"Deposit","p":0,"u":u,"eid":eid,"amount":a,"per":per,"del":d}
dist={"op":"Distribute","p":0}
F=[]
F.append(dict(property="C17",id="K1",what="the distribution index holds 1095 days and is never pruned: after 1095 daily distributions in a pool every further distribution is refused and the undistributed reserve can no longer be emitted",
  step=1099,match="a valid request (Distribute) is refused",cfg=cfg,
  steps=[s(t,ip),s(t,im(0)),s(t,fill(10**9,t-t%D+2000*D)),s(t,dep(0,1,1000,"Flex")),s(t+10,dist)],repeat=[4,1096,D]))
F.append(dict(property="C12",id="K2",what="slashing a delegated stake leaves the slashed tokens in the delegate's delegated weight and in the pool total (the request does not name the delegate)",
  step=4,match="total weight is Some(4600), the stakes in it add up to 4200",cfg=cfg,
  steps=[s(t,ip),s(t,im(0)),s(t,im(1)),s(t,dep(0,1,1000,"Y1",1)),s(t+D,{"op":"Slash","eid":1,"native":400,"off":0})]))
F.append(dict(property="C17",id="K3",what="after a penalty that removed more weight than the pending boost, the owner's full withdrawal is refused because the account weight is lower than the staked tokens",
  step=4,match="a valid request (Withdraw) is refused",cfg=cfg,
  steps=[s(t,ip),s(t,im(0)),s(t,dep(0,1,1000,"Flex")),s(t+D,{"op":"Decrease","p":0,"u":0,"amount":300}),s(t+10*D,{"op":"Withdraw","eid":1,"amount":1000})]))
F.append(dict(property="C04",id="K4",what="closing an account that still has weight of its own is accepted (an existing test relies on it) and leaves that weight and its scheduled decrease in the pool, where it dilutes everybody's rewards",
  step=3,match="total weight is Some(1200), the stakes in it add up to 0",cfg=cfg,
  steps=[s(t,ip),s(t,im(0)),s(t,dep(0,1,600,"M3")),s(t+D,{"op":"Close","p":0,"u":0,"to":0})]))
FX=[
 "fixed: property=C20 203ad75 deposit, withdraw, extend and close built by the shipped builders declared accounts read-only or missing that the program writes, so the requests were refused",
 "fixed: property=C12 e42279d a delegate was settled with its new delegated weight for the past (deposit, withdraw, extend, change of delegate): retroactive rewards, and claims refused (also C02, C01)",
 "fixed: property=C15 72113bc extending a running stake left its old expiry in the pool: on that day the boost was subtracted from the pool's total a second time (also C04, C05)",
 "fixed: property=C02 0e5c0a9 a distribution recorded in the very first second of a day was not credited by a settlement in the same second (stale index; rewards of the day went to the wrong weight)",
 "fixed: property=C18 e000c48 a bookkeeping entry that did not fit (51st expiry date of an account, 366th of a pool, 1096th distribution) was dropped silently and the request accepted (also C04, C06)",
 "fixed: property=C14 48f7802 a penalty also shrank rewards already earned, because the account was not settled first",
 "fixed: property=C10 ea59f9e change of delegate accepted an old delegate's account of another pool; closing accepted a pool the account does not belong to (also C12, C16)",
 "fixed: property=C19 591f173 anybody could block an account or a vault from ever being created by sending one lamport to its address",
 "fixed: property=C08 723e19b filling a vault from itself raised the distributable amount without any tokens arriving (also C01)",
 "fixed: property=C10 11863c4 a participant account could be opened in any account the program owns (a pool that does not exist yet, another participant's account)",
 "fixed: property=C16 dc1f299 lamports sent in the same transaction kept a closed participant account alive as an empty account of the program, which could never be opened again",
 "fixed: property=C20 415cb9d further accounts given to a cross-program call of the generated client arrived with their writable and signer flags exchanged",
]
json.dump({"about":"genuine defects recorded rather than repaired, one directed history each; and those repaired by a fix: commit in /repo","findings":F,"fixed":FX},open('/verif/known_findings.json','w'),indent=1)
