// envelopes: finite, well-formed, of limited magnitude
pub open spec fn lim(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000000000000000000real }
pub open spec fn enull(e: Envelope) -> bool { val(e.maxx) < val(e.minx) }
pub open spec fn wfe(e: Envelope) -> bool {
    lim(e.minx) && lim(e.maxx) && lim(e.miny) && lim(e.maxy) && (enull(e) || (val(e.minx) <= val(e.maxx) && val(e.miny) <= val(e.maxy))) }
pub open spec fn emeet(a: Envelope, b: Envelope) -> bool {
    !enull(a) && !enull(b) && val(a.minx) <= val(b.maxx) && val(b.minx) <= val(a.maxx) && val(a.miny) <= val(b.maxy) && val(b.miny) <= val(a.maxy) }
/// what is assumed of libm's hypot: non-negative, at least either argument, exact on the axes
pub open spec fn is_hypot(x: real, y: real, r: f64) -> bool {
    fin(r) && val(r) >= rabs(x) && val(r) >= rabs(y) && (y == 0real ==> val(r) == rabs(x)) && (x == 0real ==> val(r) == rabs(y)) }
pub assume_specification[ f64::hypot ](x: f64, y: f64) -> (r: f64)
    ensures lim2(x) && lim2(y) ==> is_hypot(val(x), val(y), r);
pub open spec fn lim2(x: f64) -> bool { fin(x) && rabs(val(x)) <= 3000000000000000000000000000000real }
