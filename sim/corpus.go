package main

import "strings"

// corpus holds hand-written modules with constructs the generator does not write. "NAME" is
// replaced by the module name.
var corpus = []string{
	"unit NAME;\ninterface\ntype\n  TShape = record\n    case Kind: Integer of\n      0: (X, Y: Integer);\n      1: (R: Double);\n  end;\n  IFoo = interface\n  end;\nimplementation\nend.\n",
	"unit NAME;\ninterface\nuses SysUtils, Windows;\nresourcestring\n  SMsg = 'hello';\nconst\n  A: array[0..2] of Integer = (1, 2, 3);\n  B: record x: Integer; end = (x: 1);\nimplementation\nend.\n",
	"unit NAME;\ninterface\ntype\n  TA = class\n  private\n    FX: Integer;\n  public\n    constructor Create(A: Integer);\n    destructor Destroy; override;\n    procedure P(const S: string; var N: Integer); virtual; abstract;\n    property X: Integer read FX write FX default 3;\n    property Items[I: Integer]: string read GetItem write SetItem; default;\n  end;\n  TB = class(TA)\n  published\n    property X;\n  end;\nimplementation\nend.\n",
	"unit NAME;\ninterface\nprocedure P(a: Integer = 1; b: string = 'x');\nfunction F: Integer;\nimplementation\nprocedure P;\nvar i: Integer;\nbegin\n  for i := 0 to 10 do\n    if i > 5 then Break else Continue;\n  case i of\n    1: Exit;\n    2..3: begin Writeln('x'); end;\n  else\n    Halt;\n  end;\n  goto lab;\n  lab: i := 1;\n  with a do b := c;\n  try\n    x := y as T;\n  except\n    on E: Exception do raise;\n  else\n    z := 1;\n  end;\nend;\nfunction F: Integer;\nbegin\n  Result := not 1 + (2 * -3) shl 4;\nend;\ninitialization\n  x := 1;\nfinalization\n  x := 2;\nend.\n",
	"unit NAME;\ninterface\ntype\n  E = (a, b = 3, c);\n  S = set of E;\n  R = 1..10;\n  P = ^R;\n  F = function(x: Integer): Boolean of object;\n  A = packed array[E, 0..3] of array of string;\n  C = class of TObject;\n  T = type Integer;\n  D = file;\n  G = string[30];\nthreadvar\n  v: Integer;\nvar\n  w: array[0..1] of Integer = (1, 2);\n  q: Integer absolute v;\nimplementation\nend.\n",
}

// rawModule replaces a unit (or adds text to the program) by a sample.
func rawModule(r *Rng, c *Case, s string) {
	p := c.Projs[0]
	i := 0
	if len(p.Mods) > 1 {
		i = r.In(1, len(p.Mods)-1)
	}
	m := p.Mods[i]
	text := strings.ReplaceAll(s, "NAME", m.Name)
	if i == 0 {
		text = strings.Replace(text, "unit", "program", 1)
	}
	m.Raw = text
}
