package clit

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ftl/sdrainer/cli"
	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/tci"
	"vh/vlib"
	"vh/wsnet"
)

type M = map[string]any

const tciEnv = "VH_TCI_HOST"

func TestMain(m *testing.M) {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: dialNames}
	if arg, ok := os.LookupEnv(tciEnv); ok {
		dialTCI(arg)
		return
	}
	vlib.Setup()
	os.Exit(m.Run())
}

// names are known to the name server of the test.
var names = map[string]net.IP{
	"radio":                    net.IPv4(192, 0, 2, 7).To4(),
	"sub.domain-1.example.com": net.IPv4(192, 0, 2, 8).To4(),
	"radiosix":                 net.ParseIP("2001:db8::7"),
}

// dialNames connects to a name server that runs in this process.
func dialNames(context.Context, string, string) (net.Conn, error) {
	client, server := net.Pipe()
	go func() {
		defer server.Close()
		for {
			var size [2]byte
			if _, err := io.ReadFull(server, size[:]); err != nil {
				return
			}
			query := make([]byte, binary.BigEndian.Uint16(size[:]))
			if _, err := io.ReadFull(server, query); err != nil {
				return
			}
			answer := resolve(query)
			binary.BigEndian.PutUint16(size[:], uint16(len(answer)))
			if _, err := server.Write(append(size[:], answer...)); err != nil {
				return
			}
		}
	}()
	return client, nil
}

func resolve(query []byte) []byte {
	var labels []string
	end := 12
	for query[end] != 0 {
		n := int(query[end])
		labels = append(labels, string(query[end+1:end+1+n]))
		end += n + 1
	}
	kind := binary.BigEndian.Uint16(query[end+1:])
	end += 5
	ip, known := names[strings.ToLower(strings.Join(labels, "."))]

	answer := append([]byte{}, query[:end]...)
	answer[2], answer[3] = 0x85, 0x80 // an authoritative answer
	for i := 6; i < 12; i++ {
		answer[i] = 0
	}
	switch {
	case !known:
		answer[3] = 0x83 // no such name
	case kind == 1 && len(ip) == 4, kind == 28 && len(ip) == 16:
		answer[7] = 1
		answer = append(answer, 0xc0, 12, 0, byte(kind), 0, 1, 0, 0, 0, 60, 0, byte(len(ip)))
		answer = append(answer, ip...)
	}
	return answer
}

type result struct {
	Addr string `json:"addr"`
	Port int    `json:"port"`
}

func dialled(addr string) result {
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return result{Addr: "dialled " + addr}
	}
	n, _ := strconv.Atoi(port)
	return result{host, n}
}

// dialTCI writes the address that a TCI process connects to.
func dialTCI(arg string) {
	n := &wsnet.Net{Refuse: true}
	wsnet.Install(n)
	r := result{}
	if _, err := tci.New(arg, 0, rx.StrainMode, nil, nil, false); err == nil {
		r.Addr = "nothing"
		for range 1000 {
			time.Sleep(10 * time.Millisecond)
			if l := n.Dials(); len(l) > 0 {
				r = dialled(l[0])
				break
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

type hostDriver struct{}

func (hostDriver) Reset() {}

func (hostDriver) Step(in M) any {
	arg := vlib.Str(in["h"])
	chars, _ := in["p"].([]any)
	if s, ok := in["p"].([]string); ok {
		for _, c := range s {
			chars = append(chars, c)
		}
	}
	port := ""
	for _, c := range chars {
		port += c.(string)
	}
	colons := []string{":" + port}
	if port == "" {
		colons = append(colons, "") // the colon may be missing, too
	}
	var first result
	for i, c := range colons {
		r := run(in, arg+c)
		if i == 0 {
			first = r
		} else if r != first {
			return M{"argument": arg + c, "result": r, "with colon": first}
		}
	}
	return first
}

func run(in M, arg string) result {
	switch in["op"] {
	case "parse":
		addr, err := cli.ParseTCPAddrArg(arg, vlib.Str(in["dh"]), vlib.Int(in["dp"]))
		if err != nil {
			return result{}
		}
		host := addr.IP.String()
		if addr.Zone != "" {
			host += "%" + addr.Zone
		}
		return result{host, addr.Port}
	case "kiwi":
		n := &wsnet.Net{Refuse: true}
		wsnet.Install(n)
		if _, err := kiwi.New(arg, "", "", 7020000, 10000, nil); err == nil {
			return result{Addr: "no error"}
		}
		if l := n.Dials(); len(l) > 0 {
			return dialled(l[0])
		}
		return result{}
	default:
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), tciEnv+"="+arg)
		out, err := cmd.Output()
		var r result
		if err != nil || json.Unmarshal(out, &r) != nil {
			return result{Addr: "failed: " + string(out)}
		}
		return r
	}
}

func TestC29(t *testing.T) {
	g := vlib.LoadGraph("hostarg")
	g.Walk("HostArg", hostDriver{}, 100000, 1000, 120*time.Second)
	g = vlib.LoadGraph("hostargtci")
	g.Walk("HostArg/tci", hostDriver{}, 100000, 1000, 240*time.Second)

	tr := vlib.NewTrace("hostarg.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	hosts := []string{"radio", "radiosix", "sub.domain-1.example.com", "localhost", "192.0.2.1", "127.0.0.1", "[::1]", "[2001:db8::9]",
		"[2001:db8:1:2:3:4:5:6]", "[fe80::1%lo]", "[::ffff:192.0.2.3]", "nowhere", "10.0.0.256", ""}
	defaults := []string{"localhost", "192.0.2.1", "radiosix", "::1", "2001:db8::9", "nowhere", "radio"}
	odd := strings.Split("abcxyzABC+-_. /#@!~*,;?&=%\\\"'()é１٣²", "")
	tr.Reset(nil)
	for n := 0; n < vlib.N(4000, 40000); n++ {
		in := M{"op": []string{"parse", "parse", "kiwi"}[rnd.Intn(3)], "h": hosts[rnd.Intn(len(hosts))]}
		port := []string{}
		switch rnd.Intn(6) {
		case 0: // none
		case 1, 2, 3:
			port = strings.Split(strconv.Itoa(rnd.Intn(70000)+1), "")
		case 4:
			for range 1 + rnd.Intn(22) {
				port = append(port, strconv.Itoa(rnd.Intn(10)))
			}
			port = append(port, "1") // not zero
		default:
			port = strings.Split(strconv.Itoa(rnd.Intn(70000)+1), "")
			k := rnd.Intn(len(port) + 1)
			port = append(port[:k:k], append([]string{odd[rnd.Intn(len(odd))]}, port[k:]...)...)
		}
		in["p"] = port
		if in["op"] == "parse" {
			in["dh"], in["dp"] = defaults[rnd.Intn(len(defaults))], 1+rnd.Intn(65535)
		}
		vlib.Progress(in)
		tr.Ev(in, hostDriver{}.Step(in))
	}
	vlib.Count("random arguments", vlib.N(4000, 40000))
	vlib.Finish()
}
