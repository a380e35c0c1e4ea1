package main

import (
	"embed"
	"sort"
	"strings"
)

// Realistic configurations, the bases of deviation-bounded exploration.
var realConfigs = []string{
	`user nobody;
# a comment
worker_processes 2; # trailing
events {
    worker_connections 1024;
}
http {
    include mime.types;
    log_format main '$remote_addr - "$request" '
                    "\"$status\" ${body_bytes_sent}";
    server {
        listen 127.0.0.1:8080 default_server;
        server_name "" ~^www\d+\.example\.com$;
        location / {
            if ($request_method = POST) {
                return 405 "it's \{ not; ok }";
            }
            proxy_pass http://backend${uri};
        }
        location ~ \.php$ { }
    }
}
`,
	`http {
  map $http_host $name {
    hostnames;
    default 0;
    "*.example.com" 1;
    ~^(?<x>.+)\.net$ "${x}";
    include x;
  }
  geo $g { ranges; default ZZ; 10.0.0.0-10.255.255.255 RU; }
  types { text/html html htm; }
  upstream b {
    server unix:/tmp/s;
    server [::1]:80 weight=5;
  }
  server { listen 80; location /a { location /b { try_files $uri =404; } } }
}
stream { upstream s { server a:1; } server { listen 1; proxy_pass s; } }
`,
}

//go:embed corpus/*.conf
var corpusFiles embed.FS

// The configurations in corpus: those of the repository's tests that are small, and a few that use every context.
var corpus = func() (out []string) {
	es, err := corpusFiles.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := corpusFiles.ReadFile("corpus/" + e.Name())
		if err != nil {
			panic(err)
		}
		out = append(out, string(b))
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return out
}()

var allConfigs = append(append([]string(nil), realConfigs...), corpus...)

// luaConfigs are those with Lua blocks.
var luaConfigs = func() (out []string) {
	for _, s := range corpus {
		if strings.Contains(s, "_by_lua_block") {
			out = append(out, s)
		}
	}
	return out
}()

// corpusDeviants is all in a thorough run, and few in a quick one.
func corpusDeviants(x *X, all []string, few ...string) []string {
	if x.thorough {
		return all
	}
	return few
}
