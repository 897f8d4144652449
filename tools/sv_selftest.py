"""Self-test of umon/sv.py on constructs the current RTL does not use but a rewrite of it may: python3 tools/sv_selftest.py"""
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from umon import sv


def mod(text, top="m", params=None):
    return sv.Sim(sv.Parser(text).source(), top, params)


def comb(text, vec, params=None):
    s = mod(text, params=params)
    for ins, want in vec:
        s.poke(**ins)
        for k, v in want.items():
            assert s.peek(k) == v, (text, ins, k, s.peek(k), v)


comb("""module m #(parameter W=4)(input logic [W-1:0] a, b, output logic [W-1:0] o, output logic p);
 function automatic logic [W-1:0] mx(input logic [W-1:0] x, y); if (x > y) return x; else return y; endfunction
 function logic par; input [W-1:0] v; integer i; begin par = 1'b0; for (i=0;i<W;i=i+1) par = par ^ v[i]; end endfunction
 assign o = mx(mx(a, 4'd2), b); assign p = par(a) & ~par(b);
endmodule""", [({"a": 1, "b": 0}, {"o": 2, "p": 1}), ({"a": 7, "b": 9}, {"o": 9, "p": 1}), ({"a": 3, "b": 15}, {"o": 15, "p": 0}),
               ({"a": 7, "b": 1}, {"o": 7, "p": 0})])
comb("""module m(input logic [7:0] a, output logic [3:0] o, output logic [2:0] f, output logic q);
 always_comb begin o = '0; for (int i = 0; i < 8; i++) o += a[i]; end
 always_comb begin f = 7; casez (a) 8'b???????1: f = 0; 8'b??????10: f = 1; 8'b1???_?000: f = 2; default: ; endcase end
 assign q = a inside {8'd3, [8'd10:8'd12]};
endmodule""", [({"a": 0xff}, {"o": 8, "f": 0, "q": 0}), ({"a": 2}, {"o": 1, "f": 1}), ({"a": 0x80}, {"o": 1, "f": 2}), ({"a": 4}, {"f": 7}),
               ({"a": 3}, {"q": 1}), ({"a": 12}, {"q": 1}), ({"a": 13}, {"q": 0})])
comb("""module m(input logic [7:0] a, output logic [7:0] o, output logic [7:0] r);
 typedef enum logic [1:0] {IDLE, RUN = 2, DONE} st_t; localparam logic [3:0] K = 4'd12; typedef logic [7:0] b_t;
 b_t x; st_t s; logic [1:0][3:0] n; logic [3:0] mem [0:1][0:1];
 always_comb begin n = a; x = {n[0], n[1]}; s = DONE; end
 always_comb begin mem[0][0] = 1; mem[0][1] = 2; mem[1][0] = a[3:0]; mem[1][1] = ~K; end
 assign o = x + s; assign r = {mem[1][1], mem[a[4]][a[5]]};
endmodule""", [({"a": 0x12}, {"o": 0x24, "r": 0x32}), ({"a": 0x37}, {"o": 0x76, "r": 0x33}), ({"a": 0x29}, {"r": 0x32})])
comb("""module m(input logic signed [3:0] a, input logic [3:0] b, output logic signed [7:0] o, output logic signed [7:0] t, output logic l);
 always_comb begin automatic logic signed [5:0] w; logic [2:0] k; w = a; k = b; o = w <<< 1; t = a * $signed({1'b0, b}); l = k == b; end
endmodule""", [({"a": 15, "b": 3}, {"o": 254, "t": 253, "l": 1}), ({"a": 7, "b": 15}, {"o": 14, "t": 105, "l": 0})])
comb("""module m(input logic [7:0] a, output logic [3:0] o, output logic [3:0] c);
 always_comb begin int k; k = 0; o = 0; while (k < 8) begin if (a[k]) break; k++; o++; end end
 always_comb begin c = 0; for (int i=0;i<8;i++) begin if (!a[i]) continue; c = c + 1; end end
endmodule""", [({"a": 8}, {"o": 3, "c": 1}), ({"a": 0}, {"o": 8, "c": 0}), ({"a": 0xf1}, {"o": 0, "c": 5})])
comb("""module m #(parameter N=3)(input logic [N-1:0] a, output logic [N-1:0] o, output logic [3:0] z);
 genvar i; generate for (i=0;i<N;i++) begin: g if (i == 0) begin assign o[i] = a[i]; end else if (i % 2) assign o[i] = ~a[i]; else assign o[i] = a[i-1]; end
 case (N) 1: assign z = 1; 2, 3: assign z = 2; default: assign z = 3; endcase endgenerate
endmodule""", [({"a": 5}, {"o": 3, "z": 2}), ({"a": 2}, {"o": 4})])
s = mod("""module m(input logic clk, rst_n, input logic d, output logic [3:0] o);
 logic [3:0] sr, nx; logic u [0:3];
 always_comb begin nx = {sr[2:0], d}; end
 always_ff @(posedge clk or negedge rst_n) if (!rst_n) begin sr <= '0; u <= '{default: 1'b0}; end else begin sr <= nx; u <= '{d, u[0], u[1], u[2]}; end
 assign o = sr ^ {u[3], u[2], u[1], u[0]};
endmodule""")
s.reset(d=0)
for k in range(20):
    s.poke(d=k * 7 % 3 == 1)
    s.tick()
    assert s.peek("o") == 0
assert s.find("sr")
for bad in ("module m(input a b); endmodule", "module m(input a, output o); assign o = c; endmodule",
            "module m(input a, output o); nosuch u(.x(a)); endmodule"):
    try:
        mod(bad)
        assert 0, bad
    except sv.SVUnsupported:
        assert 0, bad
    except sv.SVError:
        pass
for odd in ("module m(input a, output o); typedef struct packed {logic x; logic y;} p_t; p_t s; assign s.x = a; endmodule",
            "interface i; logic a; endinterface module m(i x); endmodule",
            "module m(input [3:0] a, output [3:0] o); assign o = {<<{a}}; endmodule"):
    try:
        mod(odd)
        assert 0, odd
    except sv.SVUnsupported:
        pass
print("ok")
