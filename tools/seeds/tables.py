SEEDS=[
dict(id="table-wrong-version",prop="T01",
 edits=[("analyze_nplus_R36_directives.gen.go","m, ok := nginxPlusR36Directives[directive]","m, ok := nginxPlusR37Directives[directive]")] ,
 needs="a directive that differs between R36 and R37, looked up in R36",
 breaks="the match function of one release answers from the table of another",
 test='''package crossplane

import "testing"

func TestZZDemo(t *testing.T) {
	for k := range nginxPlusR37Directives {
		if _, ok := nginxPlusR36Directives[k]; !ok {
			if _, ok := MatchNginxPlusR36(k); ok {
				t.Error(k, "is known to R36")
			}
		}
	}
}
'''),
dict(id="table-lua-override",prop="T02",
 edits=[("analyze_lua_directives.gen.go",'"balancer_by_lua_block": {\n        ngxHTTPUpsConf |','"balancer_by_lua_block": {\n        ngxHTTPUpsConf | ngxHTTPSrvConf |')],
 needs="balancer_by_lua_block in a server block, with the Lua directives",
 breaks="the directive has more contexts than the generator configuration gives it",
 test='''package crossplane

import "testing"

func TestZZDemo(t *testing.T) {
	m, _ := MatchLuaLatest("balancer_by_lua_block")
	if len(m) != 1 || m[0] != ngxHTTPUpsConf|ngxConfTake1 {
		t.Error(m)
	}
}
'''),
dict(id="table-take-bits",prop="T03",
 edits=[("analyze_oss_126_directives.gen.go",'ngxStreamMainConf | ngxStreamSrvConf | ngxConfTake12,\n    },\n    "proxy_buffer"','ngxStreamMainConf | ngxStreamSrvConf | ngxConfTake1,\n    },\n    "proxy_buffer"')],
 needs="proxy_bind with two arguments in a stream block, with the directives of NGINX 1.26",
 breaks="a valid configuration is rejected",
 test='''package crossplane

import "testing"

func TestZZDemo(t *testing.T) {
	m, _ := MatchOss126("proxy_bind")
	for _, x := range m {
		if x&ngxStreamMainConf != 0 && x&ngxConfTake2 == 0 {
			t.Error("proxy_bind does not take 2 arguments in stream")
		}
	}
}
'''),
]
