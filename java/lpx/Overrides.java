package lpx;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Evaluation of modules Rat and LinProg with unbounded integers. */
public class Overrides implements ITLCOverrides {
    @Override
    public Class[] get() {
        return new Class[] {Overrides.class};
    }

    // ---------------------------------------------------------------- rationals
    static final BigInteger ZERO = BigInteger.ZERO;
    static final BigInteger ONE = BigInteger.ONE;

    static final class Q {
        final BigInteger n;
        final BigInteger d;

        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) {
                throw new RuntimeException("rational with denominator zero");
            }
            if (d.equals(ONE)) {
                this.n = n;
                this.d = d;
                return;
            }
            BigInteger g = n.gcd(d);
            if (d.signum() < 0) {
                g = g.negate();
            }
            this.n = n.divide(g);
            this.d = d.divide(g);
        }

        Q add(Q o) {
            return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }

        Q sub(Q o) {
            return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d));
        }

        Q mul(Q o) {
            return new Q(n.multiply(o.n), d.multiply(o.d));
        }

        Q div(Q o) {
            return new Q(n.multiply(o.d), d.multiply(o.n));
        }

        Q neg() {
            return new Q(n.negate(), d);
        }

        int sgn() {
            return n.signum();
        }

        int cmp(Q o) {
            return n.multiply(o.d).compareTo(o.n.multiply(d));
        }
    }

    static final Q Q0 = new Q(ZERO, ONE);
    static final Q Q1 = new Q(ONE, ONE);

    static BigInteger big(Value v) {
        if (v instanceof IntValue) {
            return BigInteger.valueOf(((IntValue) v).val);
        }
        return new BigInteger(((StringValue) v).val.toString());
    }

    static Value big(BigInteger b) {
        if (b.bitLength() < 32) {
            return IntValue.gen(b.intValue());
        }
        return new StringValue(b.toString());
    }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) {
            return ((TupleValue) v).elems;
        }
        Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("sequence expected: " + v);
        }
        return ((TupleValue) t).elems;
    }

    static Q q(Value v) {
        Value[] e = elems(v);
        return new Q(big(e[0]), big(e[1]));
    }

    static Value q(Q x) {
        return new TupleValue(new Value[] {big(x.n), big(x.d)});
    }

    static String text(Q x) {
        return x.d.equals(ONE) ? x.n.toString() : x.n + "/" + x.d;
    }

    @TLAPlusOperator(identifier = "RNorm", module = "Rat", warn = false)
    public static Value rnorm(Value n, Value d) {
        return q(new Q(big(n), big(d)));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value radd(Value a, Value b) {
        return q(q(a).add(q(b)));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rsub(Value a, Value b) {
        return q(q(a).sub(q(b)));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rmul(Value a, Value b) {
        return q(q(a).mul(q(b)));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rdiv(Value a, Value b) {
        return q(q(a).div(q(b)));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value rneg(Value a) {
        return q(q(a).neg());
    }

    @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
    public static Value rsign(Value a) {
        return IntValue.gen(q(a).sgn());
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rlt(Value a, Value b) {
        return q(a).cmp(q(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rle(Value a, Value b) {
        return q(a).cmp(q(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value req(Value a, Value b) {
        return q(a).cmp(q(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value risint(Value a) {
        return q(a).d.equals(ONE) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RNum", module = "Rat", warn = false)
    public static Value rnum(Value a) {
        return q(new Q(q(a).n, ONE));
    }

    @TLAPlusOperator(identifier = "RDen", module = "Rat", warn = false)
    public static Value rden(Value a) {
        return q(new Q(q(a).d, ONE));
    }

    @TLAPlusOperator(identifier = "IGcd", module = "Rat", warn = false)
    public static Value igcd(Value a, Value b) {
        return q(new Q(q(a).n.gcd(q(b).n), ONE));
    }

    @TLAPlusOperator(identifier = "RText", module = "Rat", warn = false)
    public static Value rtext(Value a) {
        return new StringValue(text(q(a)));
    }

    // ---------------------------------------------------------------- linear programs
    static Value field(Value r, String name) {
        RecordValue rec = r instanceof RecordValue ? (RecordValue) r : (RecordValue) r.toRcd();
        for (int i = 0; i < rec.names.length; ++i) {
            if (rec.names[i].toString().equals(name)) {
                return rec.values[i];
            }
        }
        throw new RuntimeException("no field " + name + " in " + r);
    }

    static final class Con {
        Q[] co;
        Q rhs;
        int rel; // -1: <=, 0: =, 1: >=
        boolean strict;
    }

    static Q[] vec(Value v) {
        Value[] e = elems(v);
        Q[] r = new Q[e.length];
        for (int i = 0; i < e.length; ++i) {
            r[i] = q(e[i]);
        }
        return r;
    }

    static Con con(Value v) {
        Con c = new Con();
        c.co = vec(field(v, "co"));
        c.rhs = q(field(v, "rhs"));
        String rel = ((StringValue) field(v, "rel")).val.toString();
        switch (rel) {
            case "<=": c.rel = -1; break;
            case "<": c.rel = -1; c.strict = true; break;
            case "=": c.rel = 0; break;
            case ">=": c.rel = 1; break;
            case ">": c.rel = 1; c.strict = true; break;
            default: throw new RuntimeException("unknown relation " + rel);
        }
        return c;
    }

    static List<Con> cons(Value v) {
        List<Con> r = new ArrayList<>();
        for (Value e : elems(v)) {
            r.add(con(e));
        }
        return r;
    }

    /** Result of an optimisation: kind 0 infeasible, 1 unbounded, 2 finite. */
    static final class Res {
        int kind;
        Q val = Q0;
    }

    /**
     * Maximise obj*x over free variables x (n of them) subject to closed constraints.
     * Textbook two phase primal simplex with Bland's rule on the standard form
     * x = u - w * 1 with u, w >= 0 (one shared negative part).
     */
    static Res maximise(int n, List<Con> cs, Q[] obj) {
        int m = cs.size();
        // structural columns: n (u) + 1 (w); slack per inequality; artificial per row
        int slack = 0;
        for (Con c : cs) {
            if (c.rel != 0) {
                ++slack;
            }
        }
        int cols = n + 1 + slack + m;
        Q[][] t = new Q[m][cols + 1];
        int[] basis = new int[m];
        int s = n + 1;
        for (int i = 0; i < m; ++i) {
            Con c = cs.get(i);
            for (int j = 0; j <= cols; ++j) {
                t[i][j] = Q0;
            }
            Q sum = Q0;
            for (int j = 0; j < n; ++j) {
                t[i][j] = c.co[j];
                sum = sum.add(c.co[j]);
            }
            t[i][n] = sum.neg();
            if (c.rel != 0) {
                t[i][s++] = c.rel < 0 ? Q1 : Q1.neg();
            }
            t[i][cols] = c.rhs;
            if (c.rhs.sgn() < 0) {
                for (int j = 0; j <= cols; ++j) {
                    t[i][j] = t[i][j].neg();
                }
            }
            t[i][n + 1 + slack + i] = Q1;
            basis[i] = n + 1 + slack + i;
        }
        int real = n + 1 + slack;
        // phase 1: minimise the sum of artificials
        Q[] z = new Q[cols + 1];
        for (int j = 0; j <= cols; ++j) {
            Q v = Q0;
            for (int i = 0; i < m; ++i) {
                v = v.add(t[i][j]);
            }
            z[j] = j >= real && j < cols ? Q0 : v;
        }
        iterate(t, z, basis, real, cols);
        Res r = new Res();
        if (z[cols].sgn() != 0) {
            r.kind = 0;
            return r;
        }
        // drive artificials out of the basis
        for (int i = 0; i < m; ++i) {
            if (basis[i] >= real) {
                for (int j = 0; j < real; ++j) {
                    if (t[i][j].sgn() != 0) {
                        pivot(t, z, basis, i, j, cols);
                        break;
                    }
                }
            }
        }
        // phase 2
        for (int j = 0; j <= cols; ++j) {
            z[j] = Q0;
        }
        Q so = Q0;
        for (int j = 0; j < n; ++j) {
            z[j] = obj[j];
            so = so.add(obj[j]);
        }
        z[n] = so.neg();
        for (int i = 0; i < m; ++i) {
            Q f = z[basis[i]];
            if (basis[i] < real && f.sgn() != 0) {
                for (int j = 0; j <= cols; ++j) {
                    z[j] = z[j].sub(f.mul(t[i][j]));
                }
            }
        }
        if (!iterate(t, z, basis, real, cols)) {
            r.kind = 1;
            return r;
        }
        r.kind = 2;
        r.val = z[cols].neg();
        return r;
    }

    /** Increase columns with positive reduced profit until optimal; false if unbounded. */
    static boolean iterate(Q[][] t, Q[] z, int[] basis, int real, int cols) {
        int m = t.length;
        while (true) {
            int e = -1;
            for (int j = 0; j < real; ++j) {
                if (z[j].sgn() > 0) {
                    e = j;
                    break;
                }
            }
            if (e < 0) {
                return true;
            }
            int l = -1;
            Q best = null;
            for (int i = 0; i < m; ++i) {
                if (t[i][e].sgn() > 0) {
                    Q ratio = t[i][cols].div(t[i][e]);
                    int c = best == null ? -1 : ratio.cmp(best);
                    if (c < 0 || (c == 0 && basis[i] < basis[l])) {
                        best = ratio;
                        l = i;
                    }
                }
            }
            if (l < 0) {
                return false;
            }
            pivot(t, z, basis, l, e, cols);
        }
    }

    static void pivot(Q[][] t, Q[] z, int[] basis, int l, int e, int cols) {
        Q p = t[l][e];
        if (p.cmp(Q1) != 0) {
            for (int j = 0; j <= cols; ++j) {
                if (t[l][j].sgn() != 0) {
                    t[l][j] = t[l][j].div(p);
                }
            }
        }
        for (int i = 0; i < t.length; ++i) {
            if (i != l && t[i][e].sgn() != 0) {
                Q f = t[i][e];
                for (int j = 0; j <= cols; ++j) {
                    if (t[l][j].sgn() != 0) {
                        t[i][j] = t[i][j].sub(f.mul(t[l][j]));
                    }
                }
            }
        }
        if (z[e].sgn() != 0) {
            Q f = z[e];
            for (int j = 0; j <= cols; ++j) {
                if (t[l][j].sgn() != 0) {
                    z[j] = z[j].sub(f.mul(t[l][j]));
                }
            }
        }
        basis[l] = e;
    }

    static boolean feasible(int n, List<Con> cs) {
        boolean strict = false;
        for (Con c : cs) {
            strict = strict || c.strict;
        }
        if (!strict) {
            return maximise(n, cs, zeros(n)).kind != 0;
        }
        // maximise the common slack d <= 1 of the strict constraints
        List<Con> ext = new ArrayList<>();
        for (Con c : cs) {
            Con x = new Con();
            x.rel = c.rel;
            x.rhs = c.rhs;
            x.co = new Q[n + 1];
            System.arraycopy(c.co, 0, x.co, 0, n);
            x.co[n] = !c.strict ? Q0 : c.rel < 0 ? Q1 : Q1.neg();
            ext.add(x);
        }
        Con cap = new Con();
        cap.rel = -1;
        cap.rhs = Q1;
        cap.co = zeros(n + 1);
        cap.co[n] = Q1;
        ext.add(cap);
        Q[] obj = zeros(n + 1);
        obj[n] = Q1;
        Res r = maximise(n + 1, ext, obj);
        return r.kind == 2 && r.val.sgn() > 0;
    }

    static Q[] zeros(int n) {
        Q[] r = new Q[n];
        for (int i = 0; i < n; ++i) {
            r[i] = Q0;
        }
        return r;
    }

    @TLAPlusOperator(identifier = "Feasible", module = "LinProg", warn = false)
    public static Value feasible(Value n, Value cs) {
        return feasible(((IntValue) n).val, cons(cs)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "Sup", module = "LinProg", warn = false)
    public static Value sup(Value nv, Value csv, Value objv) {
        int n = ((IntValue) nv).val;
        List<Con> cs = cons(csv);
        Q[] obj = vec(objv);
        String kind = "infeasible";
        Q val = Q0;
        boolean attained = false;
        if (feasible(n, cs)) {
            Res r = maximise(n, cs, obj);
            if (r.kind == 1) {
                kind = "unbounded";
            } else {
                kind = "finite";
                val = r.val;
                Con c = new Con();
                c.co = obj;
                c.rel = 0;
                c.rhs = val;
                List<Con> ext = new ArrayList<>(cs);
                ext.add(c);
                attained = feasible(n, ext);
            }
        }
        return new RecordValue(
            new UniqueString[] {UniqueString.of("kind"), UniqueString.of("val"), UniqueString.of("attained")},
            new Value[] {new StringValue(kind), q(val), attained ? BoolValue.ValTrue : BoolValue.ValFalse}, false);
    }

    // ---------------------------------------------------------------- values of linear expressions
    @TLAPlusOperator(identifier = "LinVal", module = "LinProg", warn = false)
    public static Value linval(Value co, Value pt, Value n) {
        Value[] c = elems(co);
        Value[] p = elems(pt);
        int k = ((IntValue) n).val;
        Q a = Q0;
        Q b = Q0;
        for (int i = 0; i < k; ++i) {
            Q f = q(c[i]);
            if (f.sgn() != 0) {
                Value[] e = elems(p[i]);
                a = a.add(f.mul(q(e[0])));
                b = b.add(f.mul(q(e[1])));
            }
        }
        return new TupleValue(new Value[] {q(a), q(b)});
    }

    // ---------------------------------------------------------------- decimal strings
    static final java.util.regex.Pattern DECIMAL = java.util.regex.Pattern.compile("\"-?[0-9]++(\\.[0-9]++)?\"");

    @TLAPlusOperator(identifier = "Decimal", module = "Lang", warn = false)
    public static Value decimal(Value name) {
        String s = ((StringValue) name).val.toString();
        if (!DECIMAL.matcher(s).matches()) {
            return new TupleValue(new Value[] {});
        }
        s = s.substring(1, s.length() - 1);
        int dot = s.indexOf('.');
        if (dot >= 0) {
            int e = s.length();
            while (s.charAt(e - 1) == '0') {
                --e;
            }
            s = s.substring(0, e);
        }
        Q v = dot < 0 ? new Q(new BigInteger(s), ONE)
                      : new Q(new BigInteger(s.substring(0, dot) + s.substring(dot + 1)), BigInteger.TEN.pow(s.length() - dot - 1));
        return new TupleValue(new Value[] {q(v)});
    }
}
