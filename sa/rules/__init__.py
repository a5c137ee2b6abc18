from . import net, net2, conn, client, svc, topic, agree, sysr, flow, life, store, persist, runs, web, tunnel, bodies, views, tasks, tasks2, tasks3, tasks4, ui, wake
REGISTRY = {**net.RULES, **net2.RULES2, **conn.RULES, **client.RULES, **svc.RULES, **topic.RULES, **agree.RULES, **sysr.RULES, **flow.RULES, **life.RULES, **store.RULES, **persist.RULES, **runs.RULES, **web.RULES, **tunnel.RULES, **bodies.RULES, **views.RULES, **tasks.RULES, **tasks2.RULES, **tasks3.RULES, **tasks4.RULES, **ui.RULES, **wake.RULES}
