import tlc2.value.impl.*;
import util.UniqueString;

/** Deep(x) == x, fully evaluated. */
public class Deep {
    public static Value Deep(final Value v) {
        if (v instanceof IntValue || v instanceof StringValue || v instanceof BoolValue || v instanceof ModelValue) return v;
        if (v instanceof LazyValue) return v;
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems; Value[] r = new Value[e.length];
            for (int i = 0; i < e.length; i++) r[i] = Deep(e[i]);
            return new TupleValue(r);
        }
        if (v instanceof RecordValue) {
            RecordValue q = (RecordValue) v; Value[] r = new Value[q.values.length];
            for (int i = 0; i < r.length; i++) r[i] = Deep(q.values[i]);
            return new RecordValue(q.names, r, false);
        }
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
            Value t = v.toTuple();
            if (t != null) return Deep(t);
            Value f = v.toFcnRcd();
            if (f == null) return v;
            FcnRcdValue g = (FcnRcdValue) f; g.normalize();
            Value[] dom = g.getDomainAsValues(); Value[] r = new Value[dom.length];
            for (int i = 0; i < r.length; i++) r[i] = Deep(g.values[i]);
            Value[] d2 = new Value[dom.length];
            for (int i = 0; i < r.length; i++) d2[i] = Deep(dom[i]);
            FcnRcdValue h = new FcnRcdValue(d2, r, false); h.deepNormalize();
            return h;
        }
        return v;
    }
}
