// Node types whose fields do not change once the node is visible outside the function that builds it.
immutable Ident, Assign, BinaryExpr, ParenExpr, WildcardTyp, TimeTyp, DateTyp, WeekdayTyp, MonthTyp, GeometryPointTyp,
  GeometryMultiObjectTyp, GeometryLineTyp, GeometryPolygonTyp, GeometryCollectionTyp, IntTyp, Range, PercentTyp, StringTyp,
  FloatTyp, DurationTyp, TemperatureTyp, PressureTyp, DistanceTyp, SpeedTyp, Ref, Selector, BooleanTyp, ArrayTyp;
immutable_elems Expr, [2]float64, [][2]float64;
assumption "machine integers are treated as mathematical integers (overflow is not modelled)";
assumption "fields of syntax tree nodes are not modified after the node has been published (checked inside the repository, assumed of callers)";
