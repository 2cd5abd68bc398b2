package gmo;

import java.util.HashMap;
import java.util.Map;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TraceBase!ReadFile, reading every file once. */
public class TraceOverride implements ITLCOverrides {
    private static final Map<String, Value> read = new HashMap<>();

    @Override public Class[] get() { return new Class[] { TraceOverride.class }; }

    @TLAPlusOperator(identifier = "ReadFile", module = "TraceBase", warn = false)
    public static synchronized Value readFile(final StringValue f) throws Exception {
        String name = f.val.toString();
        Value v = read.get(name);
        if (v == null) {
            v = (Value) tlc2.overrides.Json.ndDeserialize(f);
            v.deepNormalize();
            v.initialize();
            read.put(name, v);
        }
        return v;
    }
}
