package verif;

import tlc2.overrides.ITLCOverrides;

public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {BigNatOps.class, ImplOps.class};
    }
}
