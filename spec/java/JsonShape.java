import tlc2.value.impl.*;

/** TLC implementation of JsonShape.tla. */
public class JsonShape {
  private static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsObj(Value v) { return b(v instanceof RecordValue); }
  public static Value IsArr(Value v) { return b(v instanceof TupleValue); }
}
