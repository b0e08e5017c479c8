#!/usr/bin/env python3
"""Writes known-findings.txt's fixed entries from the fix: commits in /repo."""
import subprocess
M={'4f5f438':'C10','17a8172':'C10','b807acf':'C07','f0c241f':'C08','f593b9a':'C08','afd2ac6':'C09','e01c6cd':'C14','4251754':'C07','b153377':'C17','82f8190':'C17','cf54206':'C08','7afbc15':'C07','2c249a0':'C14','6933355':'C14','20306bb':'C07','07ec916':'C01','067e355':'C11','f87829d':'C01','343b892':'C01','5890517':'C02','e4a257a':'C02','6f6f677':'C12','517624d':'C04','304b930':'C12','a0c6a74':'C03','27fea77':'C03','42091a4':'C03','c146457':'C03','3028d3a':'C05','a6ca972':'C16','517bbbd':'C03','1981b81':'C10','a935419':'C04','123e021':'C12','b19c8e7':'C04','440b227':'C04','f4d8a70':'C10','7b772a6':'C03','220a787':'C10','f93dec1':'C10','587add6':'C04','968a998':'C04','13b0947':'C04','2c632e5':'C10','6abe285':'C06','8675f02':'C06','9314164':'C06','144da91':'C06','cb99eec':'C06','2ab4cf8':'C06','0063dbf':'C06','8602555':'C12','0d5255c':'C10','c8dce76':'C10','f6d4f6a':'C10','a0ef60c':'C10','8833278':'C20'}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','cf79fde..HEAD'],capture_output=True,text=True).stdout
out=["# Genuine defects of jchv/cleansheets found by this work. 'fixed:' entries were repaired","# in /repo by the named commit and suppress nothing. KNOWN-FINDING entries (none at","# present) would be listed as: finding: property=<id> input=<exact input> <what fails>",""]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        out.append(f"fixed: property={M.get(h,'?')} {h} {s[5:]}")
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
