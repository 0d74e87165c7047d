import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
P={'bab9fcb':'C03','4bcdcdc':'C09','b12d16a':'C07','700909c':'C08','854f884':'C11','4d3f07d':'C11','503e218':'C01','57f4a98':'C13','a34a948':'C03','de89c47':'C03','1f80eba':'C03','62e32f3':'C09','cc5df64':'C03','f33d44f':'C05','256369d':'C14','1f15c26':'C18','98838b7':'C07','85ff271':'C10','06f1821':'C10','71bcddc':'C10','cb3eb44':'C11','431dd2f':'C10'}
P.update({'16cbf54':'C22','1217656':'C24','d685e86':'C24','89c9504':'C14','f08b70c':'C14','0cb3e47':'C14','fb8faa6':'C14','97eddba':'C08','0949bb5':'C08','4694a83':'C08'})
P.update({'5defdc2':'C19','bcc81a1':'C23','9070f31':'C23','86194e3':'C23','149ec7c':'C23','8e53a28':'C23','731cc3d':'C16'})
fixed=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    fixed.append(f"fixed: property={P.get(h,'C08')} {h} {s[5:]}")
fnd=[
 {"property":"C10","sig":"special:pow(Pos,NInf,base above 1)=NInf","what":"pow(b, -Inf) for finite b > 1 returns -Inf instead of zero (a test of the repository asserts it, so it cannot be repaired here)"},
 {"property":"C10","sig":"special:pow(Zero,NInf)=Zero","what":"pow(0, -Inf) returns zero instead of infinity (a test of the repository asserts it, so it cannot be repaired here)"},
 {"property":"C18","sig":"conv:from_f64:subnormal_halved","what":"from_f64 and From<f64> of a subnormal double give exactly a half of it (the test helper to_f64 in num.rs makes the same error the other way round, and the random test of conversions fails unless it is edited too, so it is not repaired here)"},
 {"property":"C22","sig":"ser:subnormal_halved","what":"deserializing a JSON number that is a subnormal double gives exactly a half of it (same cause as in C18)"},
 {"property":"C16","sig":"macro:value:cancelled_entirely","what":"expr! of a sum or difference of inexact operands which agree in all digits of the first working precision (sqrt(x) - sqrt(y) with x and y so close) returns zero, or a value made from it, instead of the difference; when the exponents of the operands are huge it computes with as many digits as the exponent says (left so: growing the precision until the operands differ would not end in reasonable time when they are equal, as the exponent range allows 2^31 digits)"},
 {"property":"C16","sig":"macro:value:rounded_to_one","what":"expr! of asin, acos, acosh or atanh of an inexact argument which rounds to exactly one in the first working precision, such as atanh(exp(x) / exp(y)), returns the value at one (infinity, zero, NaN) instead (same reason)"},
]
json.dump({"findings":fnd,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
open('/verif/known_findings.json','a').write('\n')
