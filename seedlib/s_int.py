import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import prog
A = "src/eval/stg/arith.rs"
EV = {"eu_eval.rs": open(os.path.dirname(os.path.abspath(__file__)) + "/eu_eval.rs").read()}
S = [
 dict(id="i06-power-exponent", prop="I06", edits=[(A, '''    if exp > u32::MAX as u64 {
        return None;
    }
    base.checked_pow(exp as u32)''', '''    if exp == 0 {
        return Some(1);
    }
    base.checked_pow(exp as u32)''')],
      demo=prog("x: 2 ^ 4294967297", "ERRORcannotcombinenumbers(2,4294967297)intosamenumericdomainhelp:thiscanhappenwhenmixingintegerandfloating-pointarithmeticinwaysthatloseprecision"), files=EV,
      needs="an exponent of 2^32 or more", breaks="the exponent is truncated to 32 bits and a small wrong power is returned"),
 dict(id="i06-bits-of-large", prop="I06", edits=[(A, '''        i64::try_from(u).map_err(|_| {
            ExecutionError::BitwiseIntegerRequired(
                smid,
                format!("{u} is out of the i64 range for bitwise operations"),
            )
        })''', '''        Ok(u as i64)''')],
      demo=prog("x: 18446744073709551615 & 1", "ERRORbitwiseoperationsrequireintegerarguments(18446744073709551615isoutofthei64rangeforbitwiseoperations)"), files=EV,
      needs="an unsigned number above the signed range given to a bitwise operation", breaks="the number is reinterpreted as a negative one instead of being refused"),
 dict(id="i06-unsigned-difference", prop="I06", edits=[(A, '''            let result = l.checked_sub(r).ok_or(ExecutionError::NumericRangeError(
                machine.annotation(),
                x,
                y,
            ))?;
            machine_return_num(machine, view, Number::from(result))
        } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {''', '''            let result = l.wrapping_sub(r);
            machine_return_num(machine, view, Number::from(result))
        } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {''')],
      demo=prog("x: 10000000000000000000 - 10000000000000000001", "ERRORnumericoverflow:resultofoperatingon10000000000000000000and10000000000000000001isoutofrangehelp:theresultexceedstherepresentablerangeforthisnumerictype"), files=EV,
      needs="two numbers above the signed range, the smaller first", breaks="their negative difference wraps to a number near 2^64"),
]
