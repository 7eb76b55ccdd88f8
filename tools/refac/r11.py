M="merge/merge.go"
R=[("frag-flag",M,"		for i := range hs {\n","		var done = false\n		for i := 0; i < len(hs) && !done; i++ {\n",M,"			delete(unmerged, hr.AsArray())\n			break\n","			delete(unmerged, hr.AsArray())\n			done = true\n"),
("frag-flag2",M,"		for i := range hs {\n","		var done = false\n		for i := range hs {\n			if done {\n				break\n			}\n",M,"			delete(unmerged, hr.AsArray())\n			break\n","			delete(unmerged, hr.AsArray())\n			done = true\n"),
("frag-helper",M,"FUNC x",""),
]
R=R[:2]
